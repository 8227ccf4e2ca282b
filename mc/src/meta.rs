//! Texts for the evidence files.
pub fn level(p: u32) -> &'static str {
    match p {
        20 => "fault_enumeration",
        _ => "model_checking",
    }
}
pub fn rule(p: u32) -> &'static str {
    match p {
        1 | 2 | 3 | 10..=16 | 24 => {
            "A state is a distinct source text: a derivation of the reference grammar (every occurrence of every \
             production, with up to k deviations from the default derivation) under one layout of the gaps between its \
             tokens; a transition changes one gap (or a pair or subset of gaps) of the current layout. Each state is run \
             through the implementation; `gaps_compared` counts the gaps judged against the reference layout model, \
             `traces_validated_against_impl` the states the implementation accepted and formatted."
        }
        4 => {
            "A state is a distinct text (or text and entry production): all texts up to a length over an alphabet of all \
             kinds of characters, all short sequences of terminals, all single edits of tokens or characters of every \
             construct, and long repetitions; a transition is one edit or one further character or terminal. Each is parsed \
             and, if accepted, formatted, under a monitor for panics, crashes, hangs and memory."
        }
        5 => {
            "A state is a distinct text: a sentence of the reference grammar under one layout, or a token sequence around \
             the language that the Earley automaton accepts; a transition changes one gap or one token."
        }
        6 | 8 => {
            "A state is a distinct text: a token sequence (short ones as whole files and in place of every construct, and \
             every single or double edit of a sentence), or a sentence with an erroneous lexeme in one gap; a transition is \
             one edit or one further terminal. The Earley automaton of the reference grammar says whether it is a sentence \
             and where it dies; the implementation's errors are compared with that."
        }
        7 => {
            "A state is a distinct text over one of the alphabets, a transition appends one character (or spelling). The \
             tokens, comments, errors and positions of the implementation are compared with those of the reference lexer."
        }
        9 => {
            "A state is a distinct source text (derivation and layout), a transition changes one gap. Each state is also \
             formatted under every rewriting of its horizontal white space and line ends; \
             `traces_validated_against_impl` counts the rewritings compared."
        }
        17..=19 | 21 => {
            "A state is a directory (contents and permissions of all entries) with a command sequence to run in it, a \
             transition is one run of the executable; after each the directory, exit status and output are compared with \
             the reference model of the command line."
        }
        20 => {
            "A case is one run of the executable with one plan of faults (errno or short transfer at the n-th file-system \
             call, and pairs); distinct by command, directory and plan."
        }
        22 => {
            "A state is a distinct text: a derivation of the reference grammar under one layout, a transition changes one \
             gap. The tree built by the implementation is compared with the derivation node by node."
        }
        23 => {
            "A state is a distinct pair of entry production and sentence under one layout, a transition changes one gap. Each \
             is parsed and formatted from that entry and re-read by the reference lexer."
        }
        25 => {
            "A state is a sequence of library calls (file name, entry production, text), each calling `parse` and then, if it \
             is to and there are no errors, `pretty_print`, or one order of the steps of several files; a transition is one \
             step. Each result is compared with that of the same call alone in a process of its own."
        }
        _ => "",
    }
}
pub fn assumptions(p: u32) -> &'static [&'static str] {
    match p {
        17..=21 => &[
            "the reference model of the command line (mc/src/cli.rs)",
            "what formatting a text yields is taken from the library itself (it is judged by the other properties)",
            "no concurrent changes of the files, no symbolic links below the directories given",
        ],
        7 => &["the reference lexer (mc/src/reflex.rs)", "kinds of characters behave alike within a kind (representatives)"],
        4 => &["kinds of characters behave alike within a kind (representatives)", "stack and memory exhaustion by size excluded"],
        25 => &["what calls yield depends on the order of calls only (concurrent threads are not scheduled systematically)"],
        5 | 6 | 8 | 22 => &["the reference grammar (mc/grammar.ebnf) and lexer (mc/src/reflex.rs)"],
        _ => &["the reference grammar, lexer and layout model (mc/grammar.ebnf, mc/src/reflex.rs, mc/src/model.rs)"],
    }
}
