//! Full-domain, loop-free proofs about the real conversion functions of mitex-parser (C18).
//! The functions are called through the public traits; nothing is modelled.
#![allow(clippy::all)]
use mitex_lexer::{BraceKind, CommandName as C, IfCommandName as F, Token as T};
use mitex_parser::syntax::{SyntaxKind as K, TexLang};
use rowan::Language;

/// every kind the documentation lists, by name
const KINDS: [K; 45] = [
    K::TokenError, K::TokenLineBreak, K::TokenWhiteSpace, K::TokenComment, K::TokenLBrace, K::TokenRBrace, K::TokenLBracket, K::TokenRBracket, K::TokenLParen,
    K::TokenRParen, K::TokenComma, K::TokenTilde, K::TokenSlash, K::TokenWord, K::TokenDollar, K::TokenBeginMath, K::TokenEndMath, K::TokenAmpersand, K::TokenHash,
    K::TokenAsterisk, K::TokenAtSign, K::TokenUnderscore, K::TokenCaret, K::TokenApostrophe, K::TokenDitto, K::TokenSemicolon, K::TokenCommandSym,
    K::ClauseCommandName, K::ClauseArgument, K::ClauseLR, K::ItemNewLine, K::ItemText, K::ItemCurly, K::ItemBracket, K::ItemParen, K::ItemCmd, K::ItemEnv, K::ItemLR,
    K::ItemBegin, K::ItemEnd, K::ItemBlockComment, K::ItemTypstCode, K::ItemAttachComponent, K::ItemFormula, K::ScopeRoot,
];
const IFS: [F; 18] = [F::If, F::IfTypst, F::IfFalse, F::IfTrue, F::IfCase, F::IfNum, F::IfCat, F::IfX, F::IfVoid, F::IfHBox, F::IfVBox, F::IfHMode, F::IfMMode, F::IfVMode,
    F::IfInner, F::IfDim, F::IfEof, F::IfStar];
const TOKS: [(T, K); 36] = [
    (T::LineBreak, K::TokenLineBreak), (T::Whitespace, K::TokenWhiteSpace), (T::LineComment, K::TokenComment),
    (T::Left(BraceKind::Curly), K::TokenLBrace), (T::Right(BraceKind::Curly), K::TokenRBrace), (T::Left(BraceKind::Bracket), K::TokenLBracket), (T::Right(BraceKind::Bracket), K::TokenRBracket),
    (T::Left(BraceKind::Paren), K::TokenLParen), (T::Right(BraceKind::Paren), K::TokenRParen), (T::Comma, K::TokenComma), (T::Tilde, K::TokenTilde), (T::Slash, K::TokenSlash),
    (T::Ampersand, K::TokenAmpersand), (T::Caret, K::TokenCaret), (T::Apostrophe, K::TokenApostrophe), (T::Ditto, K::TokenDitto),
    (T::Semicolon, K::TokenSemicolon), (T::Hash, K::TokenHash), (T::Asterisk, K::TokenAsterisk), (T::AtSign, K::TokenAtSign),
    (T::Underscore, K::TokenUnderscore), (T::Word, K::TokenWord), (T::Dollar, K::TokenDollar), (T::NewLine, K::ItemNewLine), (T::Error, K::TokenError),
    (T::CommandName(C::Generic), K::ClauseCommandName), (T::CommandName(C::BeginEnvironment), K::TokenCommandSym),
    (T::CommandName(C::EndEnvironment), K::TokenCommandSym), (T::CommandName(C::BeginMath), K::TokenBeginMath), (T::CommandName(C::EndMath), K::TokenEndMath),
    (T::CommandName(C::ErrorBeginEnvironment), K::TokenError), (T::CommandName(C::ErrorEndEnvironment), K::TokenError),
    (T::CommandName(C::Else), K::ClauseCommandName), (T::CommandName(C::EndIf), K::ClauseCommandName), (T::CommandName(C::Left), K::ClauseCommandName),
    (T::CommandName(C::Right), K::ClauseCommandName),
];

pub fn some_kind(i: usize) -> K { KINDS[i] }

#[cfg_attr(kani, kani::ensures(|r: &K| *r == k))]
pub fn there_and_back(k: K) -> K {
    TexLang::kind_from_raw(TexLang::kind_to_raw(k))
}
#[cfg_attr(kani, kani::ensures(|r: &(rowan::SyntaxKind, rowan::SyntaxKind)| (r.0 == r.1) == (a == b)))]
pub fn two_codes(a: K, b: K) -> (rowan::SyntaxKind, rowan::SyntaxKind) {
    (TexLang::kind_to_raw(a), TexLang::kind_to_raw(b))
}
/// the number of kinds is 45: every code of a kind is below it, so every code decodes
#[cfg_attr(kani, kani::requires(c < 45))]
#[cfg_attr(kani, kani::ensures(|r: &u16| *r == c))]
pub fn back_and_there(c: u16) -> u16 {
    TexLang::kind_to_raw(TexLang::kind_from_raw(rowan::SyntaxKind(c))).0
}
#[cfg_attr(kani, kani::ensures(|r: &K| *r == want))]
pub fn kind_of(t: T, want: K) -> K {
    K::from(t)
}

#[cfg(kani)]
mod proofs {
    use super::*;
    fn any_kind() -> K {
        let i: usize = kani::any();
        kani::assume(i < KINDS.len());
        KINDS[i]
    }
    #[kani::proof_for_contract(there_and_back)]
    fn prove_there_and_back() { there_and_back(any_kind()); }
    #[kani::proof_for_contract(two_codes)]
    fn prove_two_codes() { two_codes(any_kind(), any_kind()); }
    #[kani::proof_for_contract(back_and_there)]
    fn prove_back_and_there() { back_and_there(kani::any()); }
    #[kani::proof_for_contract(kind_of)]
    fn prove_kind_of() {
        let (t, k) = if kani::any() {
            let i: usize = kani::any();
            kani::assume(i < TOKS.len());
            TOKS[i]
        } else if kani::any() {
            let i: usize = kani::any();
            kani::assume(i < IFS.len());
            (T::CommandName(C::If(IFS[i])), K::ClauseCommandName)
        } else {
            (T::MacroArg(kani::any()), K::TokenWord)
        };
        kind_of(t, k);
    }
    #[kani::proof]
    fn vacuity() {
        there_and_back(any_kind());
        kani::cover!(true);
        assert!(false, "canary");
    }
}
