#!/usr/bin/env python3
# Generates /verif/properties.jsonl (run by hand when a property changes; the output is committed).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe,**({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))

p("C01","Integer literals are accepted exactly when representable, with the exact value",
 "A text is accepted as a value of an 8, 16, 32 or 64 bit signed or unsigned integer type if and only if it is an integer literal in C notation (decimal, 0x hexadecimal or leading-zero octal, after optional blanks and sign; no minus sign for unsigned types) whose mathematical value fits the type, and the stored value is exactly that number. Everything else is rejected with a reason; no value is ever truncated, wrapped or clamped.",
 ["inputs"],"every text up to the stated length, for each of the eight integer types, including the values around every type boundary",
 "The tests try a handful of literals per type; overflow at a digit boundary, sign handling and trailing garbage need every text.",
 ["cligen_cv.c"],[("parse_int8..parse_uint64, range check after strtoll/strtoull","cligen_cv.c"),("cv_parse1","cligen_cv.c")],["parse_int64()","cv_parse1()"])
p("C02","decimal64 values parse, compare and print exactly",
 "For every number of fraction digits from 1 to 18, a decimal literal (optional sign, digits with at most one point, at least one digit) is stored as exactly value*10^n when it has at most n fraction digits and fits a signed 64 bit integer, and any other text is refused. Printing a stored decimal gives a literal with n fraction digits which denotes the same number and parses back to the same stored value.",
 ["inputs"],"every decimal literal up to the stated length and every fraction-digits setting; every stored 64 bit value within the stated ranges",
 "Tests use a few literals with two or four digits; the scaling arithmetic, sign of -0.x and overflow at 19 digits depend on every digit position.",
 ["cligen_cv.c"],[("parse_dec64","cligen_cv.c"),("cv_dec64_print","cligen_cv.c")],["cv_parse1()","cv2str()","cv2cbuf()"])
p("C03","All renderings of a value agree, and parsing the rendering gives the value back",
 "For every variable type, the string, buffer, duplicate and file renderings of the same value are the same text, and the length-limited rendering is a correctly terminated prefix of it and reports the full length. Parsing the rendered text as the same type yields an equal value.",
 ["inputs"],"every value of each type (strings up to the stated length) and every output buffer size in the stated range",
 "Tests print only the values they parsed; per-type formatting code is triplicated and only sampled values reach it.",
 ["cligen_cv.c"],[("cv2str, cv2cbuf, cv2str_dup, cv_print","cligen_cv.c"),("cv_parse1","cligen_cv.c")],["cv2str()","cv2cbuf()","cv2str_dup()","cv_parse1()"])
p("C04","Bool, address, MAC, UUID, URL and time texts are accepted by their grammar only",
 "A text is accepted as a boolean, MAC address, UUID, IPv4 or IPv6 address or prefix, URL or timestamp exactly when it has the documented form for that type (prefix lengths within 0-32 and 0-128), and the stored fields are those the text denotes. Any other text is refused with a reason and without side effects on memory.",
 ["inputs"],"every text up to the stated length per type, and every single or double byte deviation from a valid text",
 "Tests try one or two valid and invalid texts per type; separators, hex digits, prefix boundaries and trailing characters need every byte value at every position.",
 ["cligen_cv.c"],[("str2bool, parse_ipv4addr, parse_ipv4prefix, str2mac, str2uuid, str2urlproto, str2time","cligen_cv.c")],["cv_parse1()"])
p("C05","Range, length and pattern restrictions accept exactly the union of the intervals",
 "A value satisfies a variable specification exactly when it lies in at least one of its declared ranges (for strings: the character count lies in at least one declared length interval), a single bound being a maximum, and it matches every declared pattern and none of the inverted ones. Otherwise it is refused with a reason.",
 ["inputs","configurations"],"every value of every numeric type against every pair of symbolic interval bounds; every string up to the stated length",
 "Tests use a few constant bounds; interval arithmetic at type limits and signed/unsigned comparison need all bounds and all values.",
 ["cligen_cv.c","cligen_regex.c"],[("cv_validate and its range macros","cligen_cv.c"),("match_regexp","cligen_regex.c")],["cv_validate()"])
p("C06","Comparing values is a consistent total order that separates different values",
 "For values of the same type, comparison returns zero exactly when they denote the same value, is antisymmetric and transitive, and for numbers follows numeric order over the full range of the type. Values of different types never compare as equal.",
 ["inputs"],"all pairs and triples of values of each type, full width",
 "No test compares values directly; it shows only through duplicate range specifications. Differences that overflow an int need full-width values.",
 ["cligen_cv.c"],[("cv_cmp","cligen_cv.c")],["cv_cmp()"])
p("C07","Copies of variables and variable vectors are equal, independent and leak-free",
 "A copy of a variable or of a vector of variables has the same type, name, value, flags and order as the original; changing or freeing either leaves the other intact, and freeing both releases all memory exactly once.",
 ["inputs","histories"],"every variable type with arbitrary name and value, and every change applied to either copy",
 "Tests only copy as a by-product of command execution, with values that are not modified afterwards.",
 ["cligen_cv.c","cligen_cvec.c"],[("cv_cp, cv_dup, cv_reset","cligen_cv.c"),("cvec_dup, cvec_free","cligen_cvec.c")],["cv_dup()","cvec_dup()","cvec_free()"])
p("C08","The string buffer holds exactly what was appended and never overruns",
 "After any sequence of append, formatted print, insert-free truncate and reset operations, a string buffer contains exactly the concatenation expected, is terminated, and reports the right length; growth at any size boundary loses or adds nothing and never touches memory outside the buffer.",
 ["inputs","histories"],"every sequence of operations and lengths up to the stated bounds from any initial allocation size",
 "The tests exercise the buffer through whole commands; growth boundaries and small initial sizes are not reached by design.",
 ["cligen_buf.c"],[("cbuf_realloc, cprintf, cbuf_append_str, cbuf_append_buf, cbuf_trunc","cligen_buf.c")],["cbuf_get()","cbuf_len()"])
p("C09","A variable vector behaves as an ordered list under every edit sequence",
 "Adding, appending, deleting by position or pointer, resetting and iterating a vector of variables keep the remaining elements in order with their names and values; lookup by name returns the first element with that name, and out-of-range positions are refused without touching memory.",
 ["inputs","histories"],"every sequence of edits up to the stated length with every position argument",
 "Tests use short vectors built by the parser and never delete in the middle or out of range.",
 ["cligen_cvec.c"],[("cvec_add, cvec_append_var, cvec_del, cvec_del_i, cvec_each, cvec_find","cligen_cvec.c")],["cvec_i()","cvec_len()","cvec_each()","cvec_find()"])
p("C10","Command lines split into tokens by the documented quoting and escaping rules",
 "Splitting a command line gives exactly its blank-separated words, where a double quote at the start of a word begins a quoted word that ends at the next unescaped double quote and a backslash makes the following character part of the word; the quotes around a quoted word are removed, escapes are kept until the value is parsed, which resolves them. Each remainder is the untouched rest of the line from that word on. No line of any content crashes, leaks or loses a character.",
 ["inputs"],"every line up to the stated length over every byte value",
 "Tests try a few quoted lines; the interplay of quotes, escapes, tabs and line ends is combinatorial.",
 ["cligen_cvec.c","cligen_util.c"],[("cligen_str2cvv, next_token","cligen_cvec.c")],["cligen_str2cvv()"])
p("C11","Escaping a value and typing it back yields the same value",
 "Any non-empty value without double quote or newline, and not starting with the comment character, is read back as the same single word with the same content once it was escaped or quoted for insertion in a command line. Values offered by dynamic expansion are accepted in their escaped form, and completing them from any typed prefix gives that form or keeps what was typed.",
 ["inputs"],"every value up to the stated length over every byte value",
 "Tests cover two or three escaped words; escapes at word ends, repeated backslashes and quotes are combinations.",
 ["cligen_expand.c","cligen_cvec.c","cligen_match.c"],[("escape of expanded commands","cligen_expand.c"),("next_token unescaping","cligen_cvec.c")],["cliread_parse()"])
p("C12","Lines are trimmed and comments removed without changing the words",
 "Preparing an input line removes leading and trailing blanks and newline, collapses blank runs outside quotes to one space and drops a comment that starts at the beginning of a word, and changes nothing else. Quoted text is untouched, the result has the same words as the line, and trimming twice equals trimming once.",
 ["inputs"],"every line up to the stated length, every comment character setting",
 "Tests feed well-formed lines; position of the comment character and blank runs at both ends are combinations.",
 ["cligen_read.c"],[("cli_trim","cligen_read.c")],["cli_trim()","cliread_parse()"])
p("C13","Command trees stay sorted and free of duplicates however they are built",
 "Whatever order commands are inserted in, a command tree ends up with the same commands in the same order, no two equal siblings, keywords before variables before references, keywords ordered by name and variables by type and restrictions. Every inserted command can be found, and inserting an equal command merges the sub-trees instead of losing either.",
 ["inputs","histories"],"every sequence of insertions up to the stated length with arbitrary names and types, every ordering mode",
 "Tests declare commands in a few fixed orders; binary search insertion errors show only for particular orders.",
 ["cligen_object.c","cligen_parsetree.c"],[("co_insert, co_insert_pos, co_search1, co_eq","cligen_object.c"),("cligen_parsetree_sort, cligen_parsetree_merge","cligen_parsetree.c")],["co_insert()","pt_vec_i_get()"])
p("C14","Command trees edit and copy as ordered vectors of sub-trees",
 "Appending, inserting, deleting, clearing, truncating, looking up and copying positions of a command tree keep the remaining children in order, and positions outside the tree are refused. A deep copy or a merge is structurally equal to (the union of) its originals, has correct parent links, and is independent from them; freeing trees releases every object exactly once.",
 ["inputs","histories"],"every edit sequence up to the stated length with every position argument; every tree shape within the stated size",
 "Tests only build and free trees through the parser; out-of-range positions and copies of copies are not reached.",
 ["cligen_parsetree.c","cligen_object.c","cligen_callback.c"],[("pt_vec_append, pt_vec_i_insert, pt_vec_i_delete, pt_dup, pt_trunc, pt_free","cligen_parsetree.c"),("co_copy, co_free","cligen_object.c"),("co_callback_copy","cligen_callback.c")],["pt_dup()","pt_vec_i_get()","pt_len_get()"])
p("C15","A line matches a command exactly when every word has one best interpretation",
 "For every command tree and input line, the result is match, no match, ambiguous or incomplete as the documented rules give: a word selects the keyword it equals, else the variable of highest preference whose type accepts it, else the only keyword it is a prefix of, else a rest-of-line variable. A line matches when each word selects one alternative below the one before and a command may end there, and the matched command is the one those rules select.",
 ["inputs","configurations"],"every input line up to the stated length against a family of command trees covering nesting, shared prefixes, variables and terminals",
 "Tests give a few lines per tree; which of exact match, prefix, preference and termination decides depends on every combination.",
 ["cligen_match.c","cligen_read.c","cligen_result.c"],[("match_pattern_exact, match_multiple, match_vec","cligen_match.c"),("cliread_parse","cligen_read.c"),("mr2result","cligen_result.c")],["cliread_parse()"])
p("C16","A matched line delivers exactly the typed values to the command",
 "When a line matches, the variable vector holds first the command line itself and then one entry per word in order, with keywords under their own full name marked constant and variables under their declared name, declared type and exactly the typed value. Options to expand the line or exclude keywords change the vector in exactly the documented way.",
 ["inputs","configurations"],"every matching line up to the stated length for a family of trees; both option settings",
 "Tests look at printed vectors for a few lines; binding errors depend on the word values and positions.",
 ["cligen_match.c","cligen_cvec.c","cligen_read.c"],[("match_bindvars, add_cov_to_cvec","cligen_match.c"),("cvec_expand_first, cvec_exclude_keys","cligen_cvec.c")],["cliread_parse()","cligen_eval()"])
p("C17","Ties between matching variables are resolved by preference only",
 "When a word matches several alternatives the one with the highest preference is chosen: an exact keyword, then variables in the documented order of types (time, uuid, mac, ipv6, ipv4, decimal64, integers with range from narrow to wide, integers, url, bool, interface, string expansions, strings with pattern, strings), then abbreviated keywords, then rest-of-line; an explicit preference replaces that of the variable. Equal best preferences are ambiguous unless first-match mode is on for that kind of node, and the declaration order never matters otherwise.",
 ["inputs","configurations"],"every word up to the stated length against trees with every combination of overlapping alternatives and preference mode",
 "The preference test uses a few pairs; the outcome depends on all pairs of types, values and modes.",
 ["cligen_match.c","cligen_object.c","cligen_cv.c"],[("co_pref, cov_pref","cligen_object.c"),("match_vec, match_multiple","cligen_match.c")],["cliread_parse()"])
p("C18","Completion adds only what every candidate shares",
 "Completing a partial line only inserts characters at the cursor: the inserted text extends the last word to the longest prefix common to all visible candidate keywords, plus one delimiter when the candidate is unique, repeated for following words in the stepwise mode; with variables among the candidates nothing is inserted in the variable-showing mode. What was typed before or after the cursor is never changed, removed or overrun, quoted words are never extended and hidden commands are never candidates.",
 ["inputs","configurations"],"every partial line and cursor position up to the stated length against a family of trees, all tab modes",
 "Tests check a few tabs on fixed trees; common prefix computation with mixed lengths and buffer growth at the boundary are combinations.",
 ["cligen_match.c","cligen_read.c"],[("match_complete","cligen_match.c"),("cli_complete","cligen_read.c")],["match_complete()","tab key"])
p("C19","Help and completion list each visible candidate once and nothing hidden",
 "The alternatives shown for a partial line are exactly the commands and variables that could continue it and are not hidden, each once and in tree order, with an end-of-command entry when the line may end there. Each comes with its help text lines as declared (blank lines dropped), cut to the configured number of lines and, when asked, to the width of the terminal.",
 ["inputs","configurations"],"every partial line up to the stated length against a family of trees with hidden and duplicate entries; all help settings",
 "Tests compare a few help screens; which entries show depends on every partial line and setting.",
 ["cligen_io.c","cligen_read.c","cligen_match.c","cligen_util.c"],[("print_help_lines, print_help_line, cligen_help_eq","cligen_io.c"),("show_help_line, show_help_columns","cligen_read.c"),("cligen_txt2cvv","cligen_util.c")],["question mark and tab key output"])
p("C20","A rejected line always states a reason and has no effect",
 "Whenever a line does not match, the result says unknown (with a non-empty reason), ambiguous or incomplete, no command callback runs and no matched object is returned; whenever it matches there is a matched object. No input line of any content crashes the interpreter, touches memory out of bounds, leaks or fails to terminate.",
 ["inputs"],"every input line up to the stated length over every byte value against a family of trees",
 "Tests feed some malformed lines; robustness is about all lines.",
 ["cligen_match.c","cligen_read.c","cligen_result.c","cligen_cvec.c"],[("cliread_parse error paths","cligen_read.c"),("mr_reason_set, mr_mv_reason","cligen_result.c")],["cliread_parse()","cligen_eval()"])
p("C21","Syntax operators denote the same language as their written-out form",
 "A specification using sequence, grouping, choice, optional and nesting operators accepts exactly the command lines that its expansion into plain commands accepts, and a set accepts exactly the non-empty arrangements of its members without repetition.",
 ["inputs","programs"],"every input line of up to the stated number of words against a family of specifications covering each operator and their nesting",
 "Tests list a few accepted and rejected lines per operator; language equality needs all lines.",
 ["cligen_parse.y","cligen_syntax.c","cligen_match.c"],[("ctx_push, ctx_pop_add, ctx_peek_swap","cligen_parse.y"),("match_multiple sets handling","cligen_match.c")],["clispec_parse_str()","cliread_parse()"])
p("C22","Tree references behave as if the referenced tree were written in place",
 "A reference to a named tree accepts exactly the lines obtained by writing the referenced tree in its place, minus the commands labelled for removal, with hidden labels only affecting visibility. The reference's own callback replaces that of the referenced commands and its arguments follow theirs. After each command the trees are unchanged, so that repeating a line gives the same result.",
 ["inputs","configurations"],"every input line up to the stated number of words against a family of referencing trees, including recursion and filtering",
 "Tests run a few lines; repeated use, filters and recursion depth interact.",
 ["cligen_expand.c","cligen_parsetree.c","cligen_pt_head.c"],[("pt_expand, pt_expand_treeref, pt_expand_cleanup","cligen_expand.c"),("co_filter, cvec filter labels","cligen_expand.c")],["cliread_parse()"])
p("C23","Choice and dynamic variables accept exactly the offered values",
 "A choice variable accepts exactly the members of its list and an expansion variable exactly the values its callback currently returns, each bound to the variable's name; a unique abbreviation selects the full value, an exact member wins over other alternatives, and duplicates count once. Help texts shown for expanded values are those the callback returned, or the variable's own.",
 ["inputs","configurations"],"every word up to the stated length against symbolic choice members and expansion results",
 "Tests use fixed lists; lists whose members are prefixes of each other or contain special characters are combinations.",
 ["cligen_expand.c","cligen_match.c"],[("pt_expand_choice, pt_expand_fnv","cligen_expand.c")],["cliread_parse()"])
p("C24","Callbacks run once each, in order, with exactly their declared arguments",
 "Evaluating a matched command calls each of its callbacks exactly once in declaration order with the line's variables and that callback's own declared arguments, stops at the first failure and reports it, and brackets every call with the wrapper when one is set. Expansion callbacks get the declared arguments with their declared types, and translation functions are applied once to the typed value.",
 ["inputs","configurations","fault_sequences"],"every combination of callback results and argument lists within the stated sizes",
 "Tests use single callbacks that succeed; failure position and argument counts are not varied.",
 ["cligen_read.c","cligen_callback.c"],[("cligen_eval","cligen_read.c"),("co_callback_copy","cligen_callback.c")],["cligen_eval()","cliread_eval()"])
p("C25","History is a bounded ring of the most recent distinct lines",
 "The history holds the most recently entered lines in order, at most the configured number, skipping empty lines and immediate repetitions. Walking back and forth visits exactly them, in order and without skipping; walking beyond either end gives an empty line. Resizing empties it, and saving then loading reproduces the lines.",
 ["inputs","histories"],"every sequence of adds, walks and resizes up to the stated length with every small size",
 "Tests never wrap the ring or resize it; wrap-around needs long sequences.",
 ["cligen_history.c"],[("hist_add, hist_prev, hist_next, hist_pos","cligen_history.c"),("cligen_hist_init","cligen_history.c")],["hist_prev()","hist_next()","hist_add()"],)
p("C26","The line editor's buffer always equals what the keystrokes mean",
 "For every sequence of editing keystrokes the line returned is the one an ideal line editor would produce: insertion, overwriting, deletion, killing, yanking, transposing, cursor motion, quoting and incremental search act at the cursor, and the cursor stays within the text. The terminal always shows that line and cursor, scrolled sideways when it is longer than the terminal is wide. No sequence reads or writes outside the line, kill and search buffers however long the line grows.",
 ["inputs","histories"],"every keystroke sequence up to the stated length from arbitrary line content, cursor and terminal width",
 "The getline test feeds a few scripted sequences; cursor and buffer bounds depend on sequence history.",
 ["cligen_getline.c","cligen_handle.c"],[("gl_getline key dispatch, gl_addchar, gl_del, gl_kill, gl_yank, gl_fixup","cligen_getline.c"),("cligen_buf_increase","cligen_handle.c")],["gl_getline()"])
p("C27","Any specification text is either parsed completely or refused cleanly",
 "For every specification text the parser terminates and either reports an error or delivers trees that can be printed, matched and freed; in both cases no memory is corrupted, and unbalanced operators, unknown types, bounds that are not values of the type, and bounds on types that have none are refused.",
 ["inputs","programs"],"every text obtained by placing arbitrary bytes, up to the stated count, in a family of specification templates",
 "Tests parse valid specifications; error recovery paths need malformed ones.",
 ["cligen_parse.y","cligen_parse.l","cligen_syntax.c"],[("clispec_parse_str","cligen_syntax.c"),("grammar actions","cligen_parse.y")],["clispec_parse_str()"])
p("C28","Paged output shows every character once and pauses before the screen overflows",
 "Output written through the pager appears completely and in order as long as the user keeps asking for more, never more than a screenful (or the one line asked for) between two prompts whatever the terminal width and however output is split over calls. Quitting suppresses the rest, and with paging off nothing is ever asked.",
 ["inputs","histories","configurations"],"every text up to the stated length split over calls, every small screen size and every answer to the prompt",
 "Tests page one fixed text on one size; line wrapping at the exact width and split writes are combinations.",
 ["cligen_io.c"],[("cligen_output_scroll, cligen_output","cligen_io.c")],["cligen_output()"])
p("C29","Case-insensitive mode changes letter case matching and nothing else",
 "With case-insensitive commands enabled, two lines whose keywords differ only in letter case give the same match, the same command and the same keyword names as declared, while variable values keep their case; with it disabled, letter case distinguishes keywords. Completion candidates follow the same rule.",
 ["inputs","configurations"],"every pair of lines up to the stated length against a family of trees whose keywords differ in more than letter case",
 "Tests try one or two mixed case words; prefixes, exact matches and values mix.",
 ["cligen_match.c","cligen_handle.c"],[("match_object with strncasecmp","cligen_match.c")],["cliread_parse()","match_complete()"])
p("C30","Regular expressions constrain the whole value",
 "A value satisfies a pattern exactly when the whole value is in the language of the pattern, however the pattern uses alternation or its own anchors; several patterns must all match, inverted ones must not, and an invalid pattern is reported as an error and never as a match.",
 ["inputs"],"every string up to the stated length against a family of patterns including alternations, anchors and inverted patterns",
 "Tests use simple character class patterns where partial matching cannot be told apart.",
 ["cligen_regex.c","cligen_match.c","cligen_cv.c"],[("cligen_regex_posix_compile anchoring, match_regexp","cligen_regex.c")],["match_regexp()","cv_validate()"])
p("C31","Named trees, aliases and the active tree behave as a registry",
 "Every named tree that was added is found under its name until the handle is closed, the first one is active until another is selected (an unknown name leaves none active), and names, prompts and output pipes are stored as copies. Adding an alias makes exactly that new command available in its tree or replaces the earlier alias of that name, never an ordinary command; running it runs its command in the active tree. Working points select the sub-tree they name, and going up or to the top undoes that.",
 ["inputs","histories"],"every sequence of additions, lookups and selections up to the stated length with arbitrary names",
 "Tests use fixed names in one order.",
 ["cligen_pt_head.c","cligen_handle.c","cligen_syntax.c"],[("cligen_ph_add, cligen_ph_find, cligen_ph_active_set_byname","cligen_pt_head.c"),("cligen_alias_add","cligen_syntax.c")],["cligen_ph_find()","cligen_ph_active_get()","cligen_alias_add()"])
p("C32","Handle settings and registrations are independent and read back as set",
 "Each setting of a handle reads back the value last set and changes no other setting of that handle, and no setting of another handle except those documented as program-wide; strings are copied and may be cleared, terminal width obeys its documented minimum and zero rule. Descriptors registered for events are all kept, each with its own callback and argument, until unregistered, and extra exit characters take effect without disturbing others.",
 ["inputs","histories","configurations"],"every sequence of set, register and unregister operations up to the stated length with arbitrary values",
 "Tests set options once at startup to fixed values; the registrations are never removed or filled.",
 ["cligen_handle.c","cligen_getline.c","cligen_io.c"],[("setters and getters","cligen_handle.c"),("gl_regfd, gl_unregfd, gl_exitchar_add","cligen_getline.c")],["cligen_*_set()/cligen_*()","cligen_regfd()"])
p("C33","Printing a specification and parsing the print gives an equivalent specification",
 "For trees built from keywords, variables with types, ranges, lengths, show names, patterns and help texts, the detailed print of a tree parses without error into a tree whose commands, variable types and restrictions are the same.",
 ["programs"],"every tree of a family of specifications with symbolic names, types and bounds within the stated size",
 "Tests compare the print of a few fixed trees with a stored text.",
 ["cligen_print.c","cligen_parse.y"],[("pt2cbuf, co2cbuf, cov2cbuf","cligen_print.c")],["pt_print1()","clispec_parse_str()"])
p("C34","A piped command's output passes through its pipe function whole and in order",
 "When a command is run with an output pipe, given on the line or as the tree's default, exactly one pipe function gets all output of the command's callbacks, byte for byte and in order, followed by end of input, and everything it writes comes out once, in order, before the next command. The result of the command is that of its callbacks. Whether the pipe function succeeds, fails, stops reading early or cannot be started, the user interface itself goes on: no child process or descriptor is left behind, and no second copy of it ever returns to the caller.",
 ["inputs","configurations","fault_sequences"],"every byte string of the stated length as callback and pipe function output, every exit status, every failing system call and every typed argument",
 "Tests run a few pipe functions that succeed; early exits, failing system calls and split output are never produced.",
 ["cligen_read.c","cligen_io.c"],[("cligen_eval_pipe_pre, cligen_eval_pipe_post, cligen_eval","cligen_read.c"),("cligen_output with a pipe","cligen_io.c")],["cligen_eval()","cliread_eval()","cligen_output()"])
p("C35","Blanks, newlines and comments do not change what a specification means",
 "Blanks, tabs, line ends (LF or CR LF) and, outside of variables, comments (from a # at the beginning of a word to the end of its line, whatever they contain) may stand between any two words of a specification: the trees with their commands, variables, help texts, options and callbacks with arguments, and the global assignments are those of the specification without them. An error is reported with the number of the line it is in.",
 ["inputs","programs"],"every separator at every place of a family of specifications, with comments of arbitrary bytes",
 "Tests use one layout per specification; the lexer has a state per construct, and each treats separators on its own.",
 ["cligen_parse.l","cligen_parse.y","cligen_syntax.c"],[("lexer states","cligen_parse.l"),("clispec_parse_str","cligen_syntax.c")],["clispec_parse_str()"])
p("C36","A specification file means what its text means, whole, or is refused",
 "Reading a specification from a file of any length gives the same trees, names, assignments or error message as parsing its text from memory. A file that cannot be read to its end or holds a null character is refused, never cut short.",
 ["inputs","fault_sequences"],"every file length around the buffer sizes, every byte at the stated places, a read error after every byte",
 "Tests use small complete files; lengths at buffer boundaries, read errors and bytes outside of text are never produced.",
 ["cligen_syntax.c"],[("clispec_parse_file, clispec_parse_str","cligen_syntax.c")],["clispec_parse_file()"])
p("C37","The terminal is handed back as it was found, and signals lose no key",
 "While a line is edited keys are read one by one without echo; whenever control leaves the editor (line, end of file, exit character, error, a signal being raised) all terminal attributes are what they were before, also when paged output was shown meanwhile. A signal key raises its signal once and the line starts anew. Interrupted waits lose and invent no key, events of registered descriptors each reach their own function however signals and keys interleave, and a failing interrupt hook gives up the line.",
 ["inputs","schedules","configurations"],"every initial attribute value, key sequence of the stated length and interleaving of keys, signals and descriptor events",
 "Tests pipe their input in; there is no terminal, signal or other descriptor.",
 ["cligen_getline.c","cligen_io.c","cligen_read.c"],[("gl_getline, gl_getc, gl_select, gl_char_init, gl_char_cleanup","cligen_getline.c"),("paging","cligen_io.c")],["gl_getline()","cliread()","cligen_regfd()","cligen_interrupt_hook()"])
p("C38","An interactive session answers every line once, in order, until it ends",
 "In the command loop each non-blank line typed is reported once to the history function as it was understood, and answered once before the next: a unique command runs its callback with the values typed, and a failing callback is reported without ending the session; anything else says that it is wrong or ambiguous, and why, and runs nothing. Blank lines and comments do nothing. The loop ends without error when a callback asks for it or at end of file, where an unfinished line is not run, and with an error when the history function fails or there are no commands.",
 ["inputs","histories"],"every sequence of lines of the stated length with arbitrary arguments",
 "Tests feed fixed scripts to one program and compare parts of its output.",
 ["cligen_util.c","cligen_read.c","cligen_history.c"],[("cligen_loop","cligen_util.c"),("cliread, cliread_eval","cligen_read.c")],["cligen_loop()","cliread_eval()","cligen_hist_fn_set()"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        if len(x['title'])>80: print('LONG',x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
