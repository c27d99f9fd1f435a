use crate::gen::Iter;
use crate::{Case, Res};
pub mod cli;
pub mod conv;
pub mod glob;
pub mod lex;
pub mod macros;
pub mod names;
pub mod snap;
pub mod spec;
pub mod tree;

pub fn cases(p: &str, tier: &str, seed: u64) -> Iter {
    let th = tier == "thorough";
    match p {
        "C01" => lex::c01_cases(th, seed),
        "C02" => names::cases(th, seed),
        "C03" | "C04" | "C05" | "C06" => tree::cases(p, th, seed),
        "C18" => tree::c18_cases(),
        "C11" => glob::cases(th, seed),
        "C07" => macros::c07_cases(th, seed),
        "C08" => macros::c08_cases(th, seed),
        "C09" => macros::c09_cases(th, seed),
        "C10" => snap::cases(th, seed),
        "C12" => spec::cases(th, seed),
        "C13" => conv::c13_cases(th, seed),
        "C14" => conv::c14_cases(th, seed),
        "C15" => conv::c15_cases(th, seed),
        "C16" => conv::c16_cases(th, seed),
        "C17" => cli::cases(th, seed),
        _ => Box::new(std::iter::empty()),
    }
}
pub fn check(p: &str, c: &Case) -> Res {
    match p {
        "C01" => lex::c01(c),
        "C02" => names::check(c),
        "C03" => tree::c03(c),
        "C04" => tree::c04(c),
        "C05" => tree::c05(c),
        "C06" => tree::c06(c),
        "C18" => tree::c18(c),
        "C11" => glob::check(c),
        "C07" => macros::c07(c),
        "C08" => macros::c08(c),
        "C09" => macros::c09(c),
        "C10" => snap::check(c),
        "C12" => spec::check(c),
        "C13" => conv::c13(c),
        "C14" => conv::c14(c),
        "C15" => conv::c15(c),
        "C16" => conv::c16(c),
        "C17" => cli::check(c),
        _ => Ok(false),
    }
}
pub fn rule(p: &str) -> &'static str {
    match p {
        "C01" => "token inputs (all short, seeded long ones around the page sizes of the look-ahead buffer) with seeded sequences of peek/eat/consume; non-trivial: at least two tokens were handed out",
        "C02" => "all short and seeded longer sequences of pieces of names, clauses, blanks and comments, with the default specification and one with starred names; non-trivial: the input has a command",
        "C03" | "C04" => "all short and seeded longer token sequences over a specification with every argument shape and over the default one; non-trivial: at least two tokens",
        "C05" => "the same sequences, and commands with 253 to 520 operands; non-trivial: a command has an argument",
        "C06" => "the same sequences; non-trivial: the tree has a command, environment, formula or left-right node",
        "C07" => "all short sequences of definitions, uses and arguments and seeded documents with up to three random definitions, some behind 75 to 180 words so that the use meets the end of the engine's page; non-trivial: a macro was used",
        "C08" => "all short sequences over conditionals, seeded nests of conditionals, also at the ends of the engine's page, compared as tokens and as the parsed document; non-trivial: there is a conditional",
        "C09" => "all short and seeded long inputs without definitions and conditionals, around the sizes of the page; non-trivial: at least two tokens",
        "C11" => "all short patterns and paths, seeded longer ones, deep and long repetitions, and plain patterns against equal, shorter, longer and other paths; non-trivial: a special pattern or a path that is not empty",
        "C18" => "every kind and every token (exhaustive); all are non-trivial",
        "C10" => "all short and seeded longer histories of insert, remove, snapshot, rollback and commit on a map with three names, and of scopes of the macro engine; non-trivial: a rollback changed the mapping",
        "C12" => "seeded specifications of up to five items made from the shorthands, the builder functions or the canonical items, with look-ups of present and absent names; non-trivial: at least one item",
        "C13" => "seeded documents with a hole in a random nest of constructs, converted with and without one or two further constructs before a marker word: what is written from the marker on must be the same; non-trivial: both convert",
        "C14" => "every character up to U+2FFF as part of a word, and seeded documents of leaves between marker words in random nests of groups, formulas, commands and environments; all are non-trivial",
        "C15" => "seeded documents with an offending element in a random nest of constructs, and seeded sequences of pieces whose tree tells whether there is one; also with specifications that lack names; non-trivial: there is one",
        "C16" => "every command and environment of the specification with seventeen to twenty kinds of what may follow, seeded sequences of pieces, and documents with a piece cut out, with three specifications, both modes; non-trivial: input not empty",
        "C17" => "combinations of named and positional arguments with a fixed list of file names, run as a child process, and runs of the program on files in a scratch directory; non-trivial: the command line is accepted",
        _ => "",
    }
}
