
// ---- appended by /verif/lib/rustbuild.py: line driven access to the validator ----
#[allow(dead_code, unused_imports)]
pub mod verif_harness {
    use super::*;
    use crate::count_expr::{CountOrInf, Function, RecursiveExpr};
    use std::io::{BufRead, Write};
    use std::str::FromStr;

    type Toks<'a> = std::iter::Peekable<std::vec::IntoIter<&'a str>>;

    // v VARSUM  |  r VAR BODY REPEATS BASE
    fn expr(t: &mut Toks) -> CountExpr {
        match t.next().unwrap() {
            "v" => CountExpr::from_str(t.next().unwrap()).unwrap(),
            "r" => {
                let bound_var = Variable::from_str(t.next().unwrap()).unwrap();
                let body = expr(t);
                let reps = expr(t);
                let base = expr(t);
                CountExpr::RecursiveExpr(RecursiveExpr {
                    func: Box::new(Function { bound_var, expr: body }),
                    num_repeats: Box::new(reps),
                    base: Box::new(base),
                })
            }
            x => panic!("harness: bad token {}", x),
        }
    }
    fn toks(s: &str) -> Toks<'_> {
        s.split(' ').filter(|x| !x.is_empty()).collect::<Vec<&str>>().into_iter().peekable()
    }
    fn ex(s: &str) -> CountExpr {
        expr(&mut toks(s))
    }
    fn exinf(s: &str) -> CountOrInf {
        if s == "inf" { CountOrInf::Infinity } else { CountOrInf::Finite(ex(s)) }
    }
    // VAR EXPR;VAR EXPR;...
    fn subst(s: &str) -> VarSubst {
        let mut v = VarSubst::default();
        for p in s.split(';').filter(|x| !x.is_empty()) {
            let mut t = toks(p);
            let x = Variable::from_str(t.next().unwrap()).unwrap();
            let e = expr(&mut t);
            v.insert(x, e);
        }
        v
    }
    fn func(s: &str) -> Function {
        let mut t = toks(s);
        let bound_var = Variable::from_str(t.next().unwrap()).unwrap();
        Function { bound_var, expr: expr(&mut t) }
    }
    // CONFIG@SUBST
    fn config(s: &str) -> Config {
        let (c, v) = s.split_once('@').unwrap();
        Config::from_str(c).unwrap().subst(&subst(v)).unwrap()
    }
    // T n , R id : SUBST , I : SUBST
    fn steps(s: &str) -> Vec<ProofStep> {
        s.split(',')
            .filter(|x| !x.is_empty())
            .map(|x| match &x[0..1] {
                "T" => ProofStep::TMSteps(x[1..].parse().unwrap()),
                "R" => {
                    let (id, v) = x[1..].split_once(':').unwrap();
                    ProofStep::RuleStep { rule_id: id.parse().unwrap(), var_assignment: subst(v) }
                }
                "I" => ProofStep::InductiveStep(subst(&x[2..])),
                _ => panic!("harness: bad step {}", x),
            })
            .collect()
    }
    // INIT|FINAL|S|STEPS  or  INIT|FINAL|I|BASE|STEPS
    fn rule(s: &str) -> Rule {
        let f: Vec<&str> = s.split('|').collect();
        Rule {
            init_config: config(f[0]),
            final_config: config(f[1]),
            proof: if f[2] == "S" {
                Proof::Simple(steps(f[3]))
            } else {
                Proof::Inductive { proof_base: steps(f[3]), proof_inductive: steps(f[4]) }
            },
        }
    }
    fn opt<T: std::fmt::Display>(x: Option<T>) -> String {
        match x {
            None => "NONE".to_string(),
            Some(x) => format!("OK {}", x),
        }
    }
    fn res<T: std::fmt::Display, E: std::fmt::Display>(x: Result<T, E>) -> String {
        match x {
            Err(e) => format!("ERR {}", e),
            Ok(x) => format!("OK {}", x),
        }
    }

    fn answer(line: &str) -> String {
        let f: Vec<&str> = line.split('\t').collect();
        match f[0] {
            "subst" => res(exinf(f[1]).subst(&subst(f[2]))),
            "add" => opt(exinf(f[1]).checked_add(&exinf(f[2]))),
            "sub" => opt(exinf(f[1]).checked_sub(&exinf(f[2]))),
            "dec" => opt(exinf(f[1]).decrement()),
            "apply" => format!("OK {}", func(f[1]).apply(ex(f[2]))),
            "compose" => format!("OK {}", func(f[1]).compose(&func(f[2]))),
            "parse" => match CountOrInf::from_str(f[1]) { Ok(x) => format!("OK {}", x), Err(_) => "ERR".to_string() },
            "equiv" => format!("OK {}", config(f[1]).equivalent_to(&config(f[2]))),
            "replace" => res(config(f[1]).replace(&config(f[2]), &config(f[3]))),
            "steps" => {
                let tm = TM::from_str(f[1]).unwrap();
                let mut c = config(f[2]);
                match c.step_n(&tm, f[3].parse().unwrap()) { Ok(()) => format!("OK {}", c), Err(e) => format!("ERR {}", e) }
            }
            "show" => format!("OK {}", config(f[1])),
            "tm" => format!("OK {}", TM::from_str(f[1]).unwrap()),
            "rules" => {
                let set = RuleSet { tm: TM::from_str(f[1]).unwrap(), rules: f[2..].iter().map(|r| rule(r)).collect() };
                match validate_rule_set(&set) { Ok(()) => "OK".to_string(), Err(e) => format!("ERR {}", e) }
            }
            x => panic!("harness: bad command {}", x),
        }
    }

    pub fn main() {
        std::panic::set_hook(Box::new(|_| {}));
        let out = std::io::stdout();
        for line in std::io::stdin().lock().lines() {
            let line = line.unwrap();
            let a = match std::panic::catch_unwind(|| answer(&line)) {
                Ok(a) => a,
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                    format!("PANIC {}", m.unwrap_or_default())
                }
            };
            let mut o = out.lock();
            writeln!(o, "{}", a.replace('\n', " ")).unwrap();
            o.flush().unwrap();
        }
    }
}
