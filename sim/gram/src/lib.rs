//! Reference models: grammars, LALR(1) tables, lexical analysis, parsing engine. Nothing in here uses
//! (or was derived from) the code in /repo.
pub mod corpus;
pub mod earley;
pub mod emit;
pub mod engine;
pub mod generate;
pub mod grammar;
pub mod lalr;
pub mod lex;
pub mod script;
