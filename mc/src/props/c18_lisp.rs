//! C18: the Lisp of the shell. Every text up to a length through the reader, and every program up to
//! a size through reader and evaluator in every kind of position, against a reference reader and
//! evaluator written here; then programs that are too deep, too long or have no value.
use crate::bb::*;
use crate::common::*;
use doge_shell::environment::Environment;
use doge_shell::lisp::{LispEngine, Symbol, Value};
use serde_json::json;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub fn spec() -> Spec {
    Spec {
        id: "C18",
        level: "model_checking",
        rule: "all texts up to a length over parentheses, quotes, comments, escapes, digits, signs, spaces, line ends and letters of one to three bytes, read as one quoted expression and inside a quoted list; all programs of two levels of forms (conditionals, logic, blocks, let, define, set, functions, macros, quasi-quotation, apply, eval, map, filter, comparison, arithmetic, lists) in seven positions (top level, tail of a function, argument in a function, middle of a block, body of let, after a macro, twice in a row); result and bindings compared with a reference evaluator; all pairs of values compared and sorted; programs without a value and very deep or long data. Non-trivial: the text is malformed or holds a string, comment or wide letter; the program runs a user function or macro, or changes a binding.",
        assumptions: &[
            "functions are called with at least as many arguments as they name",
            "which error is reported is not compared, only that one is",
            "integers have 64 bits; a result that does not fit is an error",
        ],
        shards: 16,
        hang_s: 60,
        run,
    }
}

// ---- values of the reference ----
#[derive(Clone)]
enum V {
    Nil,
    B(bool),
    I(i64),
    D(f64),
    S(String),
    Y(String),
    L(Rc<Vec<V>>),
    Fun(Rc<Clo>),
    Mac(Rc<Clo>),
    Nat(&'static str),
}
struct Clo {
    args: Vec<String>,
    body: Vec<V>,
    env: Env,
}
type Env = Rc<Frame>;
struct Frame {
    vars: RefCell<HashMap<String, V>>,
    up: Option<Env>,
}
type R = Result<V, ()>;
fn list(v: Vec<V>) -> V {
    if v.is_empty() { V::Nil } else { V::L(Rc::new(v)) }
}
fn sym(s: &str) -> V {
    V::Y(s.into())
}
fn items(v: &V) -> Option<&[V]> {
    match v {
        V::Nil => Some(&[]),
        V::L(l) => Some(l),
        _ => None,
    }
}
fn truthy(v: &V) -> bool {
    !matches!(v, V::Nil | V::B(false))
}
fn show(v: &V) -> String {
    match v {
        V::Nil => "nil".into(),
        V::B(b) => (if *b { "t" } else { "f" }).into(),
        V::I(i) => format!("i{i}"),
        V::D(d) => format!("d{d}"),
        V::S(s) => format!("s{s:?}"),
        V::Y(s) => format!("y{s}"),
        V::L(l) => format!("({})", l.iter().map(show).collect::<Vec<_>>().join(" ")),
        V::Fun(_) | V::Nat(_) => "<function>".into(),
        V::Mac(_) => "<macro>".into(),
    }
}
fn real(v: &Value) -> String {
    match v {
        Value::True => "t".into(),
        Value::False => "f".into(),
        Value::Int(i) => format!("i{i}"),
        Value::Float(d) => format!("d{d}"),
        Value::String(s) => format!("s{s:?}"),
        Value::Symbol(s) => format!("y{}", s.0),
        Value::List(l) => {
            let v: Vec<String> = l.into_iter().map(|x| real(&x)).collect();
            if v.is_empty() { "nil".into() } else { format!("({})", v.join(" ")) }
        }
        Value::Macro(_) => "<macro>".into(),
        Value::NativeFunc(_) | Value::NativeClosure(_) | Value::Lambda(_) => "<function>".into(),
        other => format!("?{}", other.type_name()),
    }
}

// ---- the reference reader ----
struct Rd {
    c: Vec<char>,
    i: usize,
}
const STOP: &str = "()',;";
fn stop(c: char) -> bool {
    c.is_whitespace() || STOP.contains(c)
}
impl Rd {
    fn new(s: &str) -> Rd {
        Rd { c: s.chars().collect(), i: 0 }
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    /// Blanks, and comments from a semicolon to the end of the line.
    fn skip(&mut self) {
        while let Some(c) = self.peek() {
            if c == ';' {
                while self.peek().is_some_and(|c| c != '\n') {
                    self.i += 1;
                }
            } else if c.is_whitespace() {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    /// All expressions of a text.
    fn all(&mut self) -> Result<Vec<V>, ()> {
        let mut v = vec![];
        loop {
            self.skip();
            if self.peek().is_none() {
                return Ok(v);
            }
            v.push(self.expr()?);
        }
    }
    fn expr(&mut self) -> R {
        let c = self.peek().ok_or(())?;
        match c {
            '(' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.skip();
                    match self.peek() {
                        None => return Err(()),
                        Some(')') => {
                            self.i += 1;
                            return Ok(list(v));
                        }
                        Some(_) => v.push(self.expr()?),
                    }
                }
            }
            '\'' | ',' => {
                self.i += 1;
                let e = self.expr()?;
                Ok(list(vec![sym(if c == ',' { "comma" } else { "quote" }), e]))
            }
            '"' => {
                self.i += 1;
                let mut s = String::new();
                loop {
                    let c = self.peek().ok_or(())?;
                    self.i += 1;
                    match c {
                        '"' => return Ok(V::S(s)),
                        '\\' if matches!(self.peek(), Some('"' | '\\')) => {
                            s.push(self.peek().unwrap());
                            self.i += 1;
                        }
                        c => s.push(c),
                    }
                }
            }
            c if stop(c) => Err(()),
            _ => {
                let from = self.i;
                while self.peek().is_some_and(|c| !stop(c)) {
                    self.i += 1;
                }
                let w: String = self.c[from..self.i].iter().collect();
                match w.to_ascii_lowercase().as_str() {
                    "nil" => return Ok(V::Nil),
                    "t" => return Ok(V::B(true)),
                    "f" => return Ok(V::B(false)),
                    _ => {}
                }
                let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
                let n = w.strip_prefix('-').unwrap_or(&w);
                if digits(n) {
                    return w.parse().map(V::I).map_err(|_| ());
                }
                if let Some((a, b)) = n.split_once('.') {
                    if digits(a) && digits(b) {
                        return w.parse().map(V::D).map_err(|_| ());
                    }
                }
                // a word that starts like a number is neither a number nor a name
                if n.starts_with(|c: char| c.is_ascii_digit()) && (!w.starts_with('-') || digits_then_dot(n)) {
                    return Err(());
                }
                Ok(V::Y(w))
            }
        }
    }
}
/// `-1.` and `-1.x` are rejected like `1.`; `-1x` is a name.
fn digits_then_dot(n: &str) -> bool {
    let rest = n.trim_start_matches(|c: char| c.is_ascii_digit());
    rest.starts_with('.') && !rest[1..].starts_with(|c: char| c.is_ascii_digit())
}

// ---- the reference evaluator ----
fn look(e: &Env, k: &str) -> Option<V> {
    let mut f = Some(e.clone());
    while let Some(x) = f {
        if let Some(v) = x.vars.borrow().get(k) {
            return Some(v.clone());
        }
        f = x.up.clone();
    }
    None
}
fn def(e: &Env, k: &str, v: V) {
    e.vars.borrow_mut().insert(k.into(), v);
}
fn child(e: &Env) -> Env {
    Rc::new(Frame { vars: Default::default(), up: Some(e.clone()) })
}
fn name(v: Option<&V>) -> Result<&str, ()> {
    match v {
        Some(V::Y(s)) => Ok(s),
        _ => Err(()),
    }
}
fn names(v: Option<&V>) -> Result<Vec<String>, ()> {
    items(v.ok_or(())?).ok_or(())?.iter().map(|x| name(Some(x)).map(|s| s.to_string())).collect()
}
fn block(e: &Env, b: &[V]) -> R {
    let mut last = V::Nil;
    for x in b {
        last = ev(e, x)?;
    }
    Ok(last)
}
fn quasi(e: &Env, x: &V) -> R {
    match x {
        V::L(l) => {
            if matches!(&l[0], V::Y(s) if s == "comma") {
                return ev(e, l.get(1).ok_or(())?);
            }
            Ok(list(l.iter().map(|y| quasi(e, y)).collect::<Result<Vec<_>, _>>()?))
        }
        _ => Ok(x.clone()),
    }
}
fn ev(e: &Env, x: &V) -> R {
    let l = match x {
        V::Y(s) => return look(e, s).ok_or(()),
        V::L(l) => l,
        _ => return Ok(x.clone()),
    };
    let a = &l[1..];
    if let V::Y(k) = &l[0] {
        match k.as_str() {
            "quote" => return quasi(e, a.first().ok_or(())?),
            "comma" => return ev(e, a.first().ok_or(())?),
            "define" => {
                let n = name(a.first())?;
                let v = ev(e, a.get(1).ok_or(())?)?;
                def(e, n, v.clone());
                return Ok(v);
            }
            "set" => {
                let n = name(a.first())?;
                let v = ev(e, a.get(1).ok_or(())?)?;
                let mut f = Some(e.clone());
                while let Some(y) = f {
                    if y.vars.borrow().contains_key(n) {
                        def(&y, n, v.clone());
                        return Ok(v);
                    }
                    f = y.up.clone();
                }
                return Err(());
            }
            "defun" | "defmacro" => {
                let c = Rc::new(Clo { args: names(a.get(1))?, body: a[2..].to_vec(), env: e.clone() });
                def(e, name(a.first())?, if k == "defun" { V::Fun(c) } else { V::Mac(c) });
                return Ok(V::Nil);
            }
            "lambda" => return Ok(V::Fun(Rc::new(Clo { args: names(a.first())?, body: a[1..].to_vec(), env: e.clone() }))),
            "let" => {
                let n = child(e);
                for d in items(a.first().ok_or(())?).ok_or(())? {
                    let d = items(d).ok_or(())?;
                    let k = name(d.first())?;
                    let v = ev(&n, d.get(1).ok_or(())?)?;
                    def(&n, k, v);
                }
                return block(&n, &a[1..]);
            }
            "begin" => return block(e, a),
            "cond" => {
                for c in a {
                    let c = items(c).ok_or(())?;
                    let then = c.get(1).ok_or(())?;
                    if truthy(&ev(e, &c[0])?) {
                        return ev(e, then);
                    }
                }
                return Ok(V::Nil);
            }
            "when" => {
                return if truthy(&ev(e, a.first().ok_or(())?)?) { block(e, &a[1..]) } else { Ok(V::Nil) };
            }
            "if" => {
                if a.len() < 2 {
                    return Err(());
                }
                return if truthy(&ev(e, &a[0])?) {
                    ev(e, &a[1])
                } else {
                    a.get(2).map_or(Ok(V::Nil), |x| ev(e, x))
                };
            }
            "and" | "or" => {
                let mut last = V::B(k == "and");
                for y in a {
                    last = ev(e, y)?;
                    if truthy(&last) == (k == "or") {
                        return Ok(last);
                    }
                }
                return Ok(last);
            }
            _ => {}
        }
    }
    match ev(e, &l[0])? {
        V::Mac(m) => {
            let code = call(&m, a.to_vec())?;
            ev(e, &code)
        }
        f => {
            let args = a.iter().map(|y| ev(e, y)).collect::<Result<Vec<_>, _>>()?;
            apply(e, &f, args)
        }
    }
}
thread_local! {
    /// Calls left before a program is taken for one without an end.
    static FUEL: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
fn call(c: &Rc<Clo>, args: Vec<V>) -> R {
    FUEL.set(FUEL.get().saturating_sub(1));
    if FUEL.get() == 0 {
        return Err(());
    }
    let n = child(&c.env);
    for (i, k) in c.args.iter().enumerate() {
        if k == "..." {
            def(&n, k, list(args.iter().skip(i).cloned().collect()));
            break;
        }
        if let Some(v) = args.get(i) {
            def(&n, k, v.clone());
        }
    }
    block(&n, &c.body)
}
fn num(a: &V) -> Option<f64> {
    match a {
        V::I(i) => Some(*i as f64),
        V::D(d) => Some(*d),
        _ => None,
    }
}
fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::L(x), V::L(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| same(x, y)),
        (V::Fun(x), V::Fun(y)) => Rc::ptr_eq(x, y),
        (V::Fun(_) | V::Nat(_) | V::Mac(_), _) => false,
        _ => show(a) == show(b),
    }
}
thread_local! {
    /// Values of different kinds were compared: the order is only required to be one.
    static MIXED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn less(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::I(x), V::I(y)) => x < y,
        (V::S(x), V::S(y)) => x < y,
        _ => match (num(a), num(b)) {
            (Some(x), Some(y)) => x < y,
            _ => {
                MIXED.set(true);
                false
            }
        },
    }
}
fn arith(op: &str, a: &V, b: &V) -> R {
    match (a, b) {
        (V::I(x), V::I(y)) => match op {
            "+" => x.checked_add(*y),
            "-" => x.checked_sub(*y),
            "*" => x.checked_mul(*y),
            _ => x.checked_div(*y),
        }
        .map(V::I)
        .ok_or(()),
        _ if num(a).is_some() && num(b).is_some() => {
            let (x, y) = (num(a).unwrap(), num(b).unwrap());
            Ok(V::D(match op {
                "+" => x + y,
                "-" => x - y,
                "*" => x * y,
                _ => x / y,
            }))
        }
        _ if op == "+" => {
            let t = |v: &V| match v {
                V::S(s) => Ok(s.clone()),
                V::I(i) => Ok(i.to_string()),
                V::D(d) => Ok(d.to_string()),
                _ => Err(()),
            };
            if !matches!(a, V::S(_)) && !matches!(b, V::S(_)) {
                return Err(());
            }
            Ok(V::S(t(a)? + &t(b)?))
        }
        _ => Err(()),
    }
}
fn apply(e: &Env, f: &V, a: Vec<V>) -> R {
    let n = match f {
        V::Fun(c) => return call(c, a),
        V::Nat(n) => *n,
        _ => return Err(()),
    };
    let at = |i: usize| a.get(i).ok_or(());
    let li = |i: usize| items(a.get(i).ok_or(())?).ok_or(());
    Ok(match n {
        "list" => list(a.clone()),
        "cons" => {
            let mut v = vec![at(0)?.clone()];
            v.extend_from_slice(li(1)?);
            list(v)
        }
        "car" => li(0)?.first().ok_or(())?.clone(),
        "cdr" => list(li(0)?.iter().skip(1).cloned().collect()),
        "length" => V::I(li(0)?.len() as i64),
        "reverse" => list(li(0)?.iter().rev().cloned().collect()),
        "nth" => match at(0)? {
            V::I(i) if *i >= 0 => li(1)?.get(*i as usize).cloned().unwrap_or(V::Nil),
            _ => return Err(()),
        },
        "map" => list(li(1)?.iter().map(|x| apply(e, &a[0], vec![x.clone()])).collect::<Result<Vec<_>, _>>()?),
        "filter" => {
            let mut v = vec![];
            for x in li(1)? {
                if truthy(&apply(e, &a[0], vec![x.clone()])?) {
                    v.push(x.clone());
                }
            }
            list(v)
        }
        "apply" => return apply(e, at(0)?, li(1)?.to_vec()),
        "eval" => return ev(e, at(0)?),
        "+" => {
            let mut t = at(0)?.clone();
            at(1)?;
            for x in &a[1..] {
                t = arith("+", &t, x)?;
            }
            t
        }
        "*" => {
            let mut t = V::I(1);
            for x in &a {
                t = arith("*", &t, x)?;
            }
            t
        }
        "-" | "/" => arith(n, at(0)?, at(1)?)?,
        "==" => V::B(same(at(0)?, at(1)?)),
        "!=" => V::B(!same(at(0)?, at(1)?)),
        "<" => V::B(less(at(0)?, at(1)?)),
        "not" => V::B(!truthy(at(0)?)),
        "is_null" => V::B(matches!(at(0)?, V::Nil)),
        "bound?" => match look(e, name(Some(at(0)?))?) {
            Some(_) => V::B(true),
            None => V::Nil,
        },
        _ => return Err(()),
    })
}
const NATIVE: &[&str] = &[
    "list", "cons", "car", "cdr", "length", "reverse", "nth", "map", "filter", "apply", "eval", "+", "*", "-", "/", "==", "!=", "<", "not",
    "is_null", "bound?",
];

// ---- programs ----
/// Bindings every program starts with.
const PRELUDE: &[&str] = &[
    "(define x 1)",
    "(defun g (a) (+ a x))",
    "(defun h (a) (list a 'k))",
    "(defun r (...) ...)",
    "(defun cnt (n acc) (if (== n 0) acc (cnt (- n 1) (cons n acc))))",
    "(defun rec (n) (if (== n 0) nil (cons n (rec (- n 1)))))",
    "(defmacro m (a) (list '+ a 'x))",
    "(defmacro q (a) '(list ,a ,(list '+ 1 1)))",
    "(defmacro v (a) a)",
    "(defmacro two (a ...) (cons 'begin (cons a ...)))",
    "(define mk (lambda (n) (lambda () (set n (+ n 1)))))",
    "(define c1 (mk 10))",
];
const ATOMS: &[&str] = &["1", "x", "nil", "\"s\"", "'k", "y"];
const FORMS: &[&str] = &[
    "(if _ _ _)",
    "(if _ _)",
    "(cond (_ _) (_ 2))",
    "(when _ _ _)",
    "(and _ _)",
    "(or _ _)",
    "(begin _ _)",
    "(begin)",
    "(let ((x _)) _)",
    "(let ((z _) (x z)) (list x _))",
    "(define y _)",
    "(define x _)",
    "(set x _)",
    "(set y _)",
    "((lambda (x) _) _)",
    "((lambda () _))",
    "((lambda (z ...) (list z ... _)) _ 2 _)",
    "(g _)",
    "(h _)",
    "(r _ _)",
    "(cnt 3 _)",
    "(cons _ (rec 2))",
    "(m _)",
    "(q _)",
    "(v _)",
    "(two _ _)",
    "(c1)",
    "((mk _))",
    "(list _ _)",
    "'(a ,_)",
    "'(a (b ,_) ,_)",
    "'(a _)",
    "(quote _)",
    "(+ _ _)",
    "(- _ 1)",
    "(* _ 2)",
    "(/ _ 0)",
    "(+ _ _ 1)",
    "(== _ _)",
    "(!= _ x)",
    "(< _ 1)",
    "(not _)",
    "(is_null _)",
    "(car _)",
    "(cdr _)",
    "(cons _ _)",
    "(length _)",
    "(nth 1 (list _ _))",
    "(reverse (list _ 'a))",
    "(map h (list _ 2))",
    "(map (lambda (a) _) '(1 2))",
    "(filter (lambda (a) _) '(1 2))",
    "(apply h (list _))",
    "(apply list (list 'a _))",
    "(eval _)",
    "(eval '_)",
    "(bound? 'y)",
    "(begin (defun g (a) _) (g 5))",
    "(begin (defmacro m (a) _) (m 5))",
    "(let ((g (lambda (a) _))) (g 7))",
    "_",
];
const PLACES: &[&str] = &[
    "#",
    "((lambda (a) #) 5)",
    "((lambda (a) (list a #)) 5)",
    "((lambda (a) # a) 5)",
    "(let ((a 5)) #)",
    "(v #)",
    "(begin # #)",
];
fn holes(f: &str) -> usize {
    f.matches('_').count()
}
fn fill(f: &str, with: &[&str]) -> String {
    let mut s = String::new();
    let mut k = 0;
    for c in f.chars() {
        if c == '_' {
            s.push_str(with[k]);
            k += 1;
        } else {
            s.push(c);
        }
    }
    s
}
/// The forms whose name holds an underscore keep it as `~`.
fn forms() -> Vec<String> {
    FORMS.iter().map(|f| f.replace("is_null", "is~null")).collect()
}

struct Lab {
    engine: Rc<RefCell<LispEngine>>,
    code: Vec<V>,
}
impl Lab {
    fn new() -> Lab {
        FUEL.set(1000);
        Lab { engine: LispEngine::new(Environment::new()), code: PRELUDE.iter().map(|p| Rd::new(p).expr().ok().unwrap()).collect() }
    }
    fn world(&self) -> Env {
        let e: Env = Rc::new(Frame { vars: Default::default(), up: None });
        for n in NATIVE {
            def(&e, n, V::Nat(n));
        }
        for c in &self.code {
            let _ = ev(&e, c);
        }
        e
    }
    fn run(&self, s: &str) -> Result<String, String> {
        match catch(|| self.engine.borrow().run(s)) {
            Ok(Ok(v)) => Ok(real(&v)),
            Ok(Err(_)) => Err("error".into()),
            Err(p) => Err(format!("panic: {p}")),
        }
    }
    fn reset(&self) {
        let env = self.engine.borrow().env.clone();
        env.borrow_mut().undefine(&Symbol::from("y"));
        for p in PRELUDE {
            let _ = self.run(p);
        }
    }
    /// All of a text is read, then each expression evaluated; the value is that of the last.
    fn meaning(&self, e: &Env, text: &str) -> Result<String, String> {
        let all = Rd::new(text).all().map_err(|()| "error".to_string())?;
        let mut last = "nil".to_string();
        for x in &all {
            last = show(&ev(e, x).map_err(|()| "error".to_string())?);
        }
        Ok(last)
    }
    fn program(&self, ctx: &mut Ctx, text: &str, busy: bool) {
        FUEL.set(1000);
        let e = self.world();
        FUEL.set(300);
        MIXED.set(false);
        let want = self.meaning(&e, text);
        if FUEL.get() == 0 {
            return; // without an end
        }
        self.reset();
        let got = self.run(text);
        let mut why = vec![];
        if MIXED.get() {
            if let Err(p) = got.as_ref().map_err(|e| e.as_str()).map(drop).or_else(|e| if e == "error" { Ok(()) } else { Err(e) }) {
                ctx.violation(format!("eval {text}"), format!("{text}: {p}"), json!({"eval": text}));
            }
            return;
        }
        if got != want {
            why.push(format!("gave {got:?}, not {want:?}"));
        }
        for k in ["x", "y"] {
            let w = look(&e, k).map(|v| show(&v)).ok_or("error".to_string());
            let g = self.run(k);
            if g != w {
                why.push(format!("left {k} = {g:?}, not {w:?}"));
            }
        }
        ctx.transitions += 3;
        ctx.traces += 1;
        ctx.state((&got, self.run("x"), self.run("y")));
        ctx.eval(&format!("{}:{}", text.split_whitespace().next().unwrap_or(""), got.is_ok()), busy);
        if !why.is_empty() {
            ctx.violation(format!("eval {text}"), format!("{text}: {}", why.join("; ")), json!({"eval": text}));
        }
    }
    fn text(&self, ctx: &mut Ctx, t: &str) {
        for (kind, src) in [("read", format!("'{t}")), ("list", format!("'({t}\n)"))] {
            FUEL.set(1000);
            let e = self.world();
            FUEL.set(300);
            MIXED.set(false);
            let want = self.meaning(&e, &src);
            if MIXED.get() || FUEL.get() == 0 {
                continue;
            }
            let got = self.run(&src);
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.eval(&format!("{kind}:{}", want.clone().map_or("error".into(), |w| w.chars().take(2).collect::<String>())), want.is_err() || t.contains(['"', ';', 'é', '\u{3000}']));
            if got != want {
                ctx.violation(format!("{kind} {t:?}"), format!("{src:?} read as {got:?}, not {want:?}"), json!({"text": t}));
            }
        }
    }
}

const LETTERS: &[&str] = &["(", ")", "'", "\"", ";", "\\", "a", "1", "-", ".", " ", "\n", "é", "\u{3000}", "T"];

fn run(ctx: &mut Ctx) {
    let lab = Lab::new();
    if let Some(o) = ctx.only.clone() {
        if let Some(t) = o["text"].as_str() {
            lab.text(ctx, t);
        } else if let Some(t) = o["eval"].as_str() {
            lab.program(ctx, t, true);
        } else {
            pairs(ctx, &lab);
            extremes(ctx, &lab);
            shell(ctx);
        }
        return;
    }
    let deep = if ctx.thorough() { 6 } else { 5 };
    for len in 1..=deep {
        // the longest texts use fewer letters
        let set: Vec<&str> = match len {
            5 if !ctx.thorough() => LETTERS.iter().copied().filter(|l| !["\u{3000}", "T", "-", "1"].contains(l)).collect(),
            6 => LETTERS.iter().copied().filter(|l| !["é", "T", "\n", "-", " "].contains(l)).collect(),
            _ => LETTERS.to_vec(),
        };
        sequences(set.len(), len, |s| {
            if !ctx.mine() {
                return;
            }
            let t: String = s.iter().map(|&i| set[i]).collect();
            ctx.begin(&format!("text {t:?}"));
            lab.text(ctx, &t);
        });
    }
    // programs
    let fs = forms();
    let name = |s: String| s.replace('~', "_");
    let mut one: Vec<String> = ATOMS.iter().map(|a| a.to_string()).collect();
    for f in &fs {
        let k = holes(f);
        sequences(ATOMS.len(), k, |s| {
            one.push(fill(f, &s.iter().map(|&i| ATOMS[i]).collect::<Vec<_>>()));
        });
    }
    one.sort();
    one.dedup();
    for p in &one {
        for pl in PLACES {
            if !ctx.mine() {
                continue;
            }
            let t = name(pl.replace('#', p));
            ctx.begin(&t);
            lab.program(ctx, &t, true);
        }
    }
    // several expressions in one text, and what breaks it in front, between and after them
    let simple: Vec<String> = fs.iter().map(|f| name(fill(f, &vec!["x"; holes(f)]))).collect();
    for a in &simple {
        for b in &simple {
            for (l, m, r) in [("", " ", ""), ("", "\n;n (\n", "y"), ("", ")", ""), ("", " (", ""), ("", " ", "'"), ("", " nope ", ""), ("x", " ", " )")] {
                if ctx.mine() {
                    let t = format!("{l} {a}{m}{b} {r}");
                    ctx.begin(&t);
                    lab.program(ctx, &t, true);
                }
            }
        }
    }
    // two levels: the inner form in one hole, the other holes one of two atoms
    let small: Vec<&str> = if ctx.thorough() { vec!["1", "x", "nil"] } else { vec!["x"] };
    let inner_atoms: Vec<&str> = if ctx.thorough() { ATOMS.to_vec() } else { vec!["x", "nil"] };
    let mut inner: Vec<String> = vec![];
    for f in &fs {
        let k = holes(f);
        if k > 0 {
            sequences(inner_atoms.len(), k, |s| {
                inner.push(fill(f, &s.iter().map(|&i| inner_atoms[i]).collect::<Vec<_>>()));
            });
        } else {
            inner.push(f.clone());
        }
    }
    inner.sort();
    inner.dedup();
    for f in &fs {
        let k = holes(f);
        for hole in 0..k {
            sequences(small.len(), k - 1, |s| {
                for i in &inner {
                    let mut with: Vec<&str> = s.iter().map(|&j| small[j]).collect();
                    with.insert(hole, i);
                    let p = fill(f, &with);
                    for pl in PLACES {
                        if !ctx.mine() {
                            continue;
                        }
                        let t = name(pl.replace('#', &p));
                        ctx.begin(&t);
                        lab.program(ctx, &t, true);
                    }
                }
            });
        }
    }
    pairs(ctx, &lab);
    extremes(ctx, &lab);
    shell(ctx);
}

/// All pairs of values through the comparisons, and all triples through sort.
fn pairs(ctx: &mut Ctx, lab: &Lab) {
    let vals = [
        "nil", "t", "f", "0", "-3", "10", "9007199254740993", "9223372036854775807", "9007199254740992.0", "0.5", "-0.5", "10.0", "\"\"", "\"a\"", "\"B\"", "\"10\"", "\"é\"", "a", "b", "(1 2)", "(1 3)", "(1)", "(a \"x\")",
    ];
    let b = |s: &str| lab.run(s);
    for x in vals {
        for y in vals {
            if !ctx.mine() {
                continue;
            }
            let key = format!("compare {x} {y}");
            ctx.begin(&key);
            let [lt, le, gt, ge, eq, ne, rlt, rgt] = [
                b(&format!("(< '{x} '{y})")),
                b(&format!("(<= '{x} '{y})")),
                b(&format!("(> '{x} '{y})")),
                b(&format!("(>= '{x} '{y})")),
                b(&format!("(== '{x} '{y})")),
                b(&format!("(!= '{x} '{y})")),
                b(&format!("(< '{y} '{x})")),
                b(&format!("(> '{y} '{x})")),
            ];
            ctx.transitions += 8;
            let t = Ok("t".to_string());
            let f = Ok("f".to_string());
            let mut why = vec![];
            let all = [&lt, &le, &gt, &ge, &eq, &ne];
            if all.iter().any(|v| **v != t && **v != f) {
                why.push(format!("not truth values: {all:?}"));
            } else {
                let p = |v: &Result<String, String>| *v == t;
                if p(&eq) == p(&ne) || p(&eq) != (x == y) {
                    why.push(format!("equal: {eq:?} {ne:?}"));
                }
                if (p(&lt) && p(&gt)) || p(&ge) == p(&lt) || p(&le) == p(&gt) || p(&lt) != p(&rgt) || p(&gt) != p(&rlt) || (p(&eq) && (p(&lt) || p(&gt))) {
                    why.push(format!("< {lt:?} <= {le:?} > {gt:?} >= {ge:?}, the other way < {rlt:?} > {rgt:?}"));
                }
                let (vx, vy) = (Rd::new(x).expr().ok().unwrap(), Rd::new(y).expr().ok().unwrap());
                let exact = match (&vx, &vy) {
                    // all of them are multiples of a half
                    (V::I(i), V::D(d)) => Some((*i as i128) * 2 < (*d * 2.0) as i128),
                    (V::D(d), V::I(i)) => Some(((*d * 2.0) as i128) < (*i as i128) * 2),
                    _ => {
                        MIXED.set(false);
                        Some(less(&vx, &vy)).filter(|_| !MIXED.get())
                    }
                };
                if exact.is_some_and(|e| e != p(&lt)) {
                    why.push(format!("{x} < {y} is {lt:?}"));
                }
            }
            ctx.eval(&format!("compare:{}", lt.clone().unwrap_or_default()), true);
            if !why.is_empty() {
                ctx.violation(key, format!("{x} and {y}: {}", why.join("; ")), json!({"pairs": 1}));
            }
        }
    }
    sequences(vals.len(), 3, |s| {
        if !ctx.mine() {
            return;
        }
        let t = s.iter().map(|&i| vals[i]).collect::<Vec<_>>();
        let key = format!("sort {}", t.join(" "));
        ctx.begin(&key);
        let sorted = b(&format!("(sort '({}))", t.join(" ")));
        ctx.transitions += 1;
        let mut why = None;
        match &sorted {
            Err(e) => why = Some(e.clone()),
            Ok(_) => {
                // in order, and the same elements
                let ok = b(&format!("(let ((s (sort '({})))) (and (<= (nth 0 s) (nth 1 s)) (<= (nth 1 s) (nth 2 s)) (<= (nth 0 s) (nth 2 s)) (== 3 (length s))))", t.join(" ")));
                if ok != Ok("t".into()) {
                    why = Some(format!("not in order: {ok:?}"));
                }
                let mut a: Vec<String> = t.iter().map(|x| show(&Rd::new(x).expr().ok().unwrap())).collect();
                let v = Value::clone(&lab.engine.borrow().run(&format!("(sort '({}))", t.join(" "))).unwrap());
                let mut g: Vec<String> = match &v {
                    Value::List(l) => l.into_iter().map(|x| real(&x)).collect(),
                    _ => vec![],
                };
                a.sort();
                g.sort();
                if a != g {
                    why = Some("other elements".into());
                }
            }
        }
        ctx.eval("sort", true);
        if let Some(w) = why {
            ctx.violation(key, format!("(sort '({})) gave {sorted:?}: {w}", t.join(" ")), json!({"pairs": 1}));
        }
    });
}

/// Programs without a value, very deep and very long ones: a value or an error, never the end of the shell.
fn extremes(ctx: &mut Ctx, lab: &Lab) {
    lab.reset();
    let any = "any";
    let big = i64::MAX.to_string();
    let small = i64::MIN.to_string();
    let deep = |n: usize, a: &str, b: &str| format!("{}{}", a.repeat(n), b.repeat(n));
    let cases: Vec<(String, &str)> = vec![
        ("(/ 1 0)".into(), "error"),
        ("(truncate 1 0)".into(), "error"),
        ("(truncate 7 2)".into(), "i3"),
        (format!("(/ {small} -1)"), "error"),
        (format!("(truncate {small} -1)"), "error"),
        (format!("(+ {big} 1)"), "error"),
        (format!("(- {small} 1)"), "error"),
        (format!("(* {big} 2)"), "error"),
        (format!("(+ {big} 0)"), "i9223372036854775807"),
        ("(/ 1.0 0)".into(), "dinf"),
        ("(range 0 3)".into(), "(i0 i1 i2)"),
        ("(range 3 3)".into(), "nil"),
        ("(range 5 1)".into(), "nil"),
        ("(range -1 1)".into(), "(i-1 i0)"),
        ("(length (range 0 300000))".into(), "i300000"),
        ("(begin (define l (range 0 300000)) (set l nil) 1)".into(), "i1"),
        ("(== (range 0 200000) (range 0 200000))".into(), "t"),
        ("(< (range 0 200000) (range 0 200001))".into(), "t"),
        ("(begin (hash (range 0 200000) 1) 1)".into(), "i1"),
        ("(car (reverse (range 0 200000)))".into(), "i199999"),
        ("(length (map (lambda (a) (+ a 1)) (range 0 50000)))".into(), "i50000"),
        ("(length (filter (lambda (a) (< a 100)) (range 0 50000)))".into(), "i100"),
        ("(begin (defun down (n) (if (== n 0) 'end (down (- n 1)))) (down 200000))".into(), "yend"),
        ("(begin (defun down (n) (cond ((== n 0) 'end) (t (let ((k (- n 1))) (begin 1 (down k)))))) (down 200000))".into(), "yend"),
        ("(begin (defun od (n) (if (== n 0) f (evn (- n 1)))) (defun evn (n) (if (== n 0) t (od (- n 1)))) (evn 100001))".into(), "f"),
        ("(begin (defun up (n) (if (== n 0) 0 (+ 1 (up (- n 1))))) (up 50))".into(), "i50"),
        ("(begin (defun up (n) (if (== n 0) 0 (+ 1 (up (- n 1))))) (up 1000000))".into(), "error"),
        ("(begin (defun ever (n) (+ 1 (ever n))) (ever 1))".into(), "error"),
        ("(begin (defun ever (n) (map ever (list n))) (ever 1))".into(), "error"),
        ("(begin (defun ever (n) (apply ever (list n)) 1) (ever 1))".into(), "error"),
        ("(begin (defun ever (n) (eval '(ever 1)) 1) (ever 1))".into(), "error"),
        ("(begin (defmacro ever (n) '(ever 1)) (ever 1))".into(), "error"),
        ("(begin (defmacro ever (n) (ever 1)) (ever 1))".into(), "error"),
        (format!("(begin (define z 1) {})", deep(50, "(+ 1 ", " z)").replace(" z)", ")").replacen(")", "z)", 1)), any),
        (deep(100_000, "(", ")"), "error"),
        (deep(100_000, "(", ""), "error"),
        (format!("'{}", deep(100_000, "(", ")")), any),
        (format!("{}a", "'".repeat(100_000)), any),
        (format!("'{}a", ",".repeat(100_000)), any),
        (deep(60, "(list ", ")"), any),
        (format!("(begin (define l nil) (defun nest (n l) (if (== n 0) l (nest (- n 1) (list l)))) (define l (nest 60 nil)) (== l l))"), "t"),
        ("(begin (defun nest (n l) (if (== n 0) l (nest (- n 1) (list l)))) (define l (nest 200000 nil)) (== l l))".into(), any),
        ("(begin (define l nil) 1)".into(), "i1"),
        ("(length (eval (cons 'list (range 0 100000))))".into(), "i100000"),
        (format!("(length (list {}))", "1 ".repeat(100_000)), "i100000"),
        (format!("(length '({}))", "(1 \"é\") ".repeat(20_000)), "i20000"),
        ("((lambda () ))".into(), "nil"),
        ("(lambda () \"é\")".into(), "<function>"),
        ("(nth -1 '(1))".into(), "error"),
        ("(+)".into(), "error"),
        ("(-)".into(), "error"),
        ("(hash_get (hash \"a\" 1 \"b\" 2) \"b\")".into(), "i2"),
        ("(hash_get (hash '(1 \"k\") 7) (list 1 \"k\"))".into(), "i7"),
    ];
    for (src, want) in cases {
        if !ctx.mine() {
            continue;
        }
        let brief: String = src.chars().take(60).collect();
        let key = format!("extreme {brief} ({} bytes)", src.len());
        ctx.begin(&key);
        let got = match lab.run(&src) {
            Ok(v) => v,
            Err(e) => e,
        };
        let shown = lab.run("1");
        ctx.transitions += 1;
        ctx.eval("extreme", true);
        if (want != any && got != want) || got.starts_with("panic") || shown != Ok("i1".into()) {
            let g: String = got.chars().take(120).collect();
            ctx.violation(key, format!("{brief} gave {g}, not {want}; afterwards 1 is {shown:?}"), json!({"extremes": 1}));
        }
        let _ = lab.run("(define l nil)");
    }
}

/// The same through whole shells: the printed value, the status, and what follows.
fn shell(ctx: &mut Ctx) {
    let cases: &[(&str, Option<&str>)] = &[
        ("(+ 1 2)", Some("3")),
        ("\"\"", Some("")),
        ("\"a \\\" b\"", Some("a \" b")),
        ("'(1 \"a\" b)", Some("(1 a b)")),
        ("(lambda (a) \"é\")", Some("<func:(lambda (a) \"é\")>")),
        ("(undefined 1)", None),
        ("(/ 1 0)", None),
        ("(begin (defun e (n) (+ 1 (e n))) (e 1))", None),
        ("((((", None),
        ("(length (range 0 100000))", Some("100000")),
        ("(sort '(3 1 2))", Some("(1 2 3)")),
        ("(< 1 2)", Some("T")),
        ("(begin (range 0 200000) 5)", Some("5")),
    ];
    for (src, want) in cases {
        if !ctx.mine() {
            continue;
        }
        let key = format!("shell {src}");
        ctx.begin(&key);
        let mut sh = Sh::new(&ctx.scratch);
        sh.stub("rec");
        let mut why = vec![];
        let o = sh.run_args(&["-l", src]);
        let printed = o.stdout.trim_end_matches('\n').to_string();
        if (o.code == Some(0)) != want.is_some() {
            why.push(format!("-l ended with {:?}", o.code));
        }
        if let Some(w) = want {
            if printed != *w && !src.starts_with("(lambda") {
                why.push(format!("-l printed {printed:?}, not {w:?}"));
            }
        }
        if !src.contains('\'') && !src.contains('\\') {
            let o = sh.run(&format!("lisp '{src}' && rec yes"));
            let yes = o.log.iter().any(|e| e["argv"][0] == "yes");
            if yes != want.is_some() {
                why.push(format!("lisp '…' && rec ran rec: {yes}"));
            }
        }
        ctx.transitions += 2;
        ctx.eval("shell", true);
        if !why.is_empty() {
            ctx.violation(key, format!("{src}: {}", why.join("; ")), json!({"shell": 1}));
        }
    }
}
