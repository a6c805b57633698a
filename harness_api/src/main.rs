//! C17 (layout and capacity, every capacity) and C21 (error values).
mod c17;
mod c21;
use kit::choices::Ch;
use kit::mini::{Problem, Verdict};

enum Which {
    C17,
    C21,
}
#[derive(Debug, Hash)]
enum Case {
    C17(c17::Case),
    C21(c21::Case),
}
impl Problem for Which {
    type Case = Case;
    type Ctx = ();
    fn ctx(&self) {}
    fn case(&self, c: &mut Ch, small: bool) -> Case {
        match self {
            Which::C17 => Case::C17(c17::case(c, small)),
            Which::C21 => Case::C21(c21::case(c, small)),
        }
    }
    fn check(&self, _: &mut (), case: &Case, trace: bool) -> Verdict {
        match case {
            Case::C17(c) => c17::check(c, trace),
            Case::C21(c) => c21::check(c, trace),
        }
    }
    fn rule(&self) -> String {
        match self {
            Which::C17 => c17::RULE,
            Which::C21 => c21::RULE,
        }
        .to_owned()
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    kit::mini::main(|p| match p {
        "C17" => Some(Which::C17),
        "C21" => Some(Which::C21),
        _ => None,
    })
}
