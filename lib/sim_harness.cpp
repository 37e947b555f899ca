// Drives the tree's own DirectSimulator: machine, then a list of step goals; prints the configuration at each.
#include <fstream>
#include <iostream>
#include <sstream>
#include <memory>
#include "simulator.h"
#include "turing_machine.h"
using namespace busy_beaver;
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::unique_ptr<TuringMachine> tm(ReadTuringMachine(&is, ""));
    std::getline(std::cin, line); std::istringstream goals(line);
    DirectSimulator sim(*tm); std::string g;
    while (goals >> g) {
      if (g[0] == 's') { for (long k = std::stol(g.substr(1)); k > 0; --k) sim.Step(); }
      else if (g[0] == 'c') { Tape t = sim.tape(); for (int k = 0; k < 300; ++k) t.move(k < 200 ? +1 : -1); }   // copies are independent
      else sim.Seek(std::stol(g.substr(1)));
      long lo = 0, hi = 0; const Tape& t = sim.tape();
      while (t.in_range(lo - 1)) --lo; while (t.in_range(hi + 1)) ++hi;
      std::cout << sim.step_num() << ' ' << sim.is_halted() << ' ' << sim.state() << ' ' << sim.last_state() << ' ' << sim.last_symbol() << ' ' << t.position() << ' ' << t.read() << ' ' << lo << ' ';
      for (long p = lo; p <= hi; ++p) std::cout << t.read(p);
      std::cout << ' ' << t.read(lo - 5) << t.read(hi + 7) << '\n';
    }
  }
}
