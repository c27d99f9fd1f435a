#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))
L='crates/mitex-lexer/src/'; PA='crates/mitex-parser/src/'; S='crates/mitex-spec/src/'; M='crates/mitex/src/'; G='crates/mitex-glob/src/lib.rs'; CLI='crates/mitex-cli/src/'

prop('C01','Plain token stream hands out every token once, in order',
 "For every input, the token stream without macro expansion hands out the tokens of the input in source order, each exactly once, however long the input is and however callers mix looking ahead, taking a whole token and taking only a prefix of a token's text. Looking ahead never changes what is handed out next, and taking a prefix of a token leaves exactly the rest of that token (or the next token, if nothing is left) to come.",
 ['inputs','histories'],'all input strings, all histories of peek/take/partial-take operations, any number of internal refill boundaries',
 'Tests lex inputs of a few dozen tokens, so the refill boundary of the token page (about 170 tokens) and partial takes around it are never crossed.',
 [L+'lib.rs',L+'stream.rs'],
 [('peek, eat, next, consume_utf8_bytes, peek_text, peek_char','%slib.rs Lexer'%L),('bump and the reversed page','%sstream.rs LexCache::bump'%L)],
 [('peek_outer','the peeked token and the reversed page of tokens already lexed',L+'stream.rs')],['mitex_lexer::Lexer API'])

prop('C02','Command names and environment clauses are recognised exactly',
 "For every input, a backslash followed by text is split off as the command name TeX users expect: one arbitrary non-space character, or a letter or @ followed by all letters and @ that come next, plus a star only where the specification has an item of exactly the starred name. A \\begin or \\end followed, after any mix of blanks, line ends and comments, by a braced name becomes an environment clause whose text is exactly that name; anything else becomes the error clause and no more input than the command name is taken. Recognising a name never panics and never splits a character.",
 ['inputs','configurations'],'all input strings (any Unicode), all command specifications',
 'Tests use a handful of ASCII names; blanks, comments and multi-byte text between \\begin and its brace are not sampled.',
 [L+'token.rs'],[('lex_command_name, advance_ascii_name, lex_begin_end',L+'token.rs')],[],['mitex_lexer::Lexer API'])

prop('C03','The syntax tree keeps every significant token exactly once, in order',
 "For every input and specification, the text of the syntax tree contains every token that is not blank, line end or comment exactly once and in source order, nothing added, whatever errors the input contains. The only significant tokens left out are the \\iffalse or \\iftypst that opens a block and the \\fi that closes that same block. Blanks, line ends and comments may be left out only between a command or environment head and an argument of it.",
 ['inputs','configurations'],'all token sequences, valid or not, all command specifications',
 'Snapshot tests fix a few dozen trees; loss, duplication or reordering needs particular nestings of scripts, infix commands, groups and arguments.',
 [PA+'parser.rs',PA+'arg_match.rs'],[('every parsing function',PA+'parser.rs Parser'),('held trivia',PA+'parser.rs hold_trivia/extract_holding_trivia')],
 [('trivia_buffer','trivia seen while looking for the next argument',PA+'parser.rs'),('list_state','where the current list and its last item start',PA+'parser.rs')],['mitex_parser::parse_without_macro(..).text()'])

prop('C04','Parsing is total: every input gives one tree, without panic or hang',
 "For every input and specification, parsing without macros ends, does not panic, and gives one tree with a single root in which every opened node is closed, provided the nesting of the input fits the call stack. This includes unbalanced braces, stray closers, scripts and infix commands without operands, and input that stops anywhere.",
 ['inputs','configurations'],'all token sequences, all command specifications; recursion depth within the stack',
 'Tests feed mostly well-formed input; a dangling checkpoint or a loop that does not advance needs a specific malformed nesting.',
 [PA+'parser.rs'],[('checkpoints used with start_node_at',PA+'parser.rs start_command_at, attach_component'),('progress of item_list and match_arguments_',PA+'parser.rs')],
 [('list_state','checkpoints that must stay valid for the node under construction',PA+'parser.rs')],['mitex_parser::parse_without_macro'])

prop('C05','A command never takes more arguments than its specification allows',
 "For every input, a command or environment specified to take at most n arguments gets at most n, one specified as a symbol gets none, and arguments are taken only as long as the sequence of their kinds (term, bracket, parenthesis) is accepted by the specified pattern. A left-attached command gets at most one argument, the item before it, and a greedy or infix command gets exactly one right-hand argument.",
 ['inputs','configurations'],'all inputs, all argument patterns including n = 0 and n = 255',
 'Tests use commands with 0 to 2 arguments from the default specification; limits, 255 and mixes of words and groups are not sampled.',
 [PA+'arg_match.rs',PA+'parser.rs'],[('ArgMatcher::try_match, match_as_term, start_match',PA+'arg_match.rs'),('match_arguments_, command, environment',PA+'parser.rs')],
 [('counter, prefix','what has been matched so far',PA+'arg_match.rs')],['mitex_parser::syntax::CmdItem::arguments'])

prop('C06','Every tree the parser builds has the documented node shapes',
 "In every tree, each command node holds exactly one command-name token as a direct child, each environment node starts with exactly one begin clause whose first token is the environment's name and has at most one end clause, which comes last; each formula node starts with a dollar or math-open token; each \\left..\\right node starts with its left clause. Hence the typed accessors for name, begin clause, left clause and formula delimiters never fail on a parsed tree.",
 ['inputs','configurations'],'all inputs, valid or not, all command specifications',
 'Snapshot tests fix the shape of a few dozen trees; consumers rely on it for all of them, with unwrap.',
 [PA+'parser.rs',PA+'syntax.rs'],[('start_node/finish_node pairs',PA+'parser.rs'),('typed accessors',PA+'syntax.rs')],[],['mitex_parser::syntax typed nodes'])

prop('C07','Macro expansion substitutes the arguments that were read',
 "For every macro defined with n parameters, using it reads n arguments - a braced group up to its matching brace without the braces, or one character of a word, or one other token - and is replaced by the definition's tokens in order, with each #i replaced by the i-th argument and nothing else changed. Definitions nest braces correctly, a # that is not followed by a digit 1 to 9 stays as it is, and no definition or use makes the engine panic.",
 ['inputs','programs'],'all macro definitions and uses (definitions that recurse forever excluded)',
 'Tests expand a few macros with braced arguments; undelimited arguments split out of words, nested braces and stray # need particular combinations.',
 [L+'macro_engine.rs',L+'stream.rs'],[('process_macro_def, read_macro_args, expand_tokens, identify_macro_update',L+'macro_engine.rs'),('read_until_balanced',L+'stream.rs')],
 [('macros','the macros defined so far',L+'macro_engine.rs')],['mitex_parser::parse, mitex_lexer::Lexer<MacroEngine>'])

prop('C08','Only the taken branch of a conditional reaches the document',
 "For every nesting of conditionals, of \\iftrue .. \\else .. \\fi only the part before \\else is handed on and of \\iffalse .. \\else .. \\fi (as \\iftypst) the skipped branch is removed up to its own \\fi, counting every conditional nested in it together with that conditional's \\else. Tokens outside the skipped branch are handed on unchanged and in order, and conditionals of other kinds are handed on unchanged, all this also when a conditional spans internal buffer boundaries.",
 ['inputs','histories'],'all nestings of \\iftrue, \\iffalse, \\iftypst and uninterpreted conditionals, unbalanced ones included',
 'Tests have a few flat conditionals; the bookkeeping only goes wrong in nested or unbalanced ones.',
 [L+'macro_engine.rs'],[('trapped_by_if, trapped_by_else, trapped_by_endif, skip_false_tokens, do_bump',L+'macro_engine.rs')],
 [('reading_if','stack of the conditionals being read',L+'macro_engine.rs')],['mitex_lexer::Lexer<MacroEngine>'])

prop('C09','Macro expansion is invisible to documents that use no macros',
 "For every input that uses no macro definition and no conditional, reading it through the macro engine gives exactly the tokens that reading it without macro expansion gives, so the two syntax trees are the same, whatever the length of the input.",
 ['inputs'],'all inputs without defining commands and conditionals',
 'Tests compare short inputs only; the engine has its own buffering, page size and token push-back.',
 [L+'macro_engine.rs',L+'stream.rs'],[('do_bump, trapped_by_macro pass-through',L+'macro_engine.rs'),('next_token, push_outer, extend_inner',L+'stream.rs')],[],['mitex_parser::parse vs parse_without_macro'])

prop('C10','Rolling back a macro scope restores every definition',
 "For every sequence of insertions, overwrites and removals made after a snapshot, also with nested snapshots, rolling back to the snapshot restores exactly the mapping of names to definitions that held when it was taken: new names vanish, overwritten and removed ones get their old value back. Insert and remove report truthfully whether the name was new or present.",
 ['histories'],'all histories of insert, remove, snapshot and rollback',
 'No test rolls back anything; correctness is about every history of operations.',
 [L+'snapshot_map.rs',L+'macro_engine.rs'],[('insert, remove, get, reverse, rollback_to',L+'snapshot_map.rs')],[('undo_log','how to undo each change',L+'snapshot_map.rs')],['mitex_lexer::snapshot_map::SnapshotMap'])

prop('C11','Glob matching is safe on all patterns and exact on plain ones',
 "For every pattern and path, including malformed and deeply nested ones, glob matching returns an answer and does not panic. For a pattern without special characters a path matches if and only if it is equal to the pattern, and matches as a prefix if and only if it is a prefix of the pattern; leading ! negates that answer.",
 ['inputs'],'all pattern and path strings',
 'Tests match a fixed list of pattern/path pairs.',
 [G],[('glob_match_internal, skip_braces, BraceStack, unescape',G)],[('State, BraceStack','positions to go back to',G)],['mitex_glob::glob_match, glob_match_prefix'])

prop('C12','Specification shorthands mean what they document; lookups respect kinds',
 "For every specification, each shorthand item (symbol, 0/1/2-argument command, left command, greedy, infix, matrix, normal, glob command or environment, aliased symbol) becomes the canonical item its documentation describes, keeping alias, pattern and context feature exactly. Looking a name up as a command finds only commands, as an environment only environments, and finds the item that was specified under exactly that name.",
 ['inputs','configurations'],'all items with all aliases, patterns and features; all specifications and names',
 'Tests go through the generated default specification only, and check none of these items one by one.',
 [S+'query.rs',S+'preludes.rs',S+'lib.rs'],[('From<query::CommandSpecItem>',S+'query.rs'),('define_* and TEX_* items',S+'preludes.rs'),('get, get_cmd, get_env',S+'lib.rs')],[],['mitex_spec API'])

prop('C13','Mode, environment and list depth never leak out of a construct',
 "For every tree that converts without error, once a formula, group, command, environment, list or table has been converted, text or math mode, the enclosing environment and the list indentation are exactly what they were before it, so that what follows is converted as if that construct had not been there.",
 ['inputs'],'all syntax trees, all nestings of constructs, both modes',
 'Tests convert constructs alone; a leak shows only in what follows a particular nesting.',
 [M+'converter.rs'],[('enter_mode/exit_mode, enter_env/exit_env pairs',M+'converter.rs')],[('mode, env, indent','what the converter is inside of',M+'converter.rs')],['mitex::convert_text, convert_math'])

prop('C14','The output is the Typst form of the tree: words, specials and constructs',
 "For every input that converts, the output is exactly the Typst form of its tree, piece by piece and in order, nothing added, dropped or repeated. Words are written unchanged in text and character by character, each followed by one space, in math; each special character of TeX is written as its fixed Typst escape; comments and the delimiters of groups and formulas are not written; alignment marks and line breaks are written as the enclosing environment demands. Formulas in text become inline or block equations; scripts in math attach to their base or to zws; \\left and \\right become lr(..); commands are written under their alias with their arguments in parentheses in math and in brackets in text; math environments become a call of their alias; list items get the mark of their list, indented by two for each list around it; figures keep their caption and body, tables their columns, rules and cells; a label stays with the environment it is set in; images and colours keep their options.",
 ['inputs'],'all trees that convert, both modes, all specifications',
 'Tests show a few characters in a few places.',
 [M+'converter.rs'],[('convert',M+'converter.rs')],[],['mitex::convert_text, convert_math'])

prop('C15','What cannot be converted is reported, never silently dropped',
 "For every tree that contains, at a place that is converted, a command (other than those the converter itself implements: \\item, \\label, \\includegraphics, \\color, \\textcolor, \\colorbox) or environment the given specification does not know, an error token, an \\item outside a list, or a formula that ends with another delimiter than the one it began with or, having content, with none, conversion gives an error and no output.",
 ['inputs','configurations'],'all trees, all nestings around the offending element',
 'Tests have one or two such elements at top level.',
 [M+'converter.rs'],[('error propagation in convert and its helpers',M+'converter.rs')],[],['mitex::convert_text, convert_math'])

prop('C16','Conversion always returns: a result or an error, never a panic',
 "For every input string, converting it as text or as math returns either output or an error message and does not panic, also when commands lack their arguments or have arguments of an unexpected kind (inputs whose macros recurse forever, or whose nesting exceeds the stack, excluded).",
 ['inputs'],'all input strings, both modes',
 'Tests convert well-formed snippets; a panic aborts the host plugin.',
 [M+'converter.rs'],[('argument accesses in convert_command_*, convert_env*, convert_clause_lr',M+'converter.rs')],[],['mitex::convert_text, convert_math'])

prop('C17','The command line decides input and output files as documented',
 "For every combination of named and positional arguments, the compile command either rejects the combination or uses exactly the input and output that were given; with no output given it is the input's name with its extension replaced by .typ. Positional files are rejected together with named ones, more than two are rejected, and a missing input is rejected.",
 ['inputs','configurations'],'all combinations of -i, -o and positional arguments, all file names',
 'No test touches the command line.',
 [CLI+'lib.rs'],[('process_opts',CLI+'lib.rs')],[],['mitex_cli::get_os_opts'])

prop('C18','Syntax kinds survive the trip through the tree library',
 "For every syntax kind, encoding it for the tree library and decoding it again gives the same kind, distinct kinds have distinct codes, and every lexer token has exactly the documented syntax kind.",
 ['inputs'],'all syntax kinds and all tokens',
 'Tests see the kinds that happen to occur in their snapshots.',
 [PA+'syntax.rs'],[('From<SyntaxKind>, From<rowan::SyntaxKind>, From<Token>',PA+'syntax.rs')],[],['mitex_parser::syntax::SyntaxKind'])

prop('C19','Specifications survive serialisation',
 "For every command specification, writing it in the binary or JSON format and reading it back gives the same commands and environments.",
 ['inputs','configurations'],'all command specifications',
 'Tests load one generated specification.',
 [S+'lib.rs',S+'stream.rs'],[('to_bytes, from_bytes',S+'lib.rs'),('derived serde and rkyv implementations',S+'lib.rs')],[],['mitex_spec::CommandSpec'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
