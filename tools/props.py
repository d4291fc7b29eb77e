HOOK_COMMITS = []
NOT_APPLICABLE = []
def P(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None, technique=None, level='model_checking', note=''):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism], 'observe_at': observe}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['hook_needed'] = hook
    d = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a)
    if technique: d['check'] = {'technique': technique, 'level': level, 'note': note}
    return d

PROPS = [
P('C01', 'Nothing dangerous runs unconfirmed',
  "At the normal level a command the guard lists as dangerous (disk and power commands, recursive rm, forced git push / hard reset / clean, recursive chmod/chown, forced recursive cp, uploads, reading credentials, fetch-and-run pipelines) never runs, nor does any command of its line's top level, unless the user confirms it or its exact text is on the allow list: wherever it stands (any list position, pipeline stage, substitution, alias, background), and however its words are quoted, escaped, abbreviated, clustered, reordered or prefixed with a path. At the strict level that holds for every command, at the loose level for none. Only y or a confirms, a confirms that exact text for the rest of the session, anything else refuses and the line fails without effect; harmless commands run without being asked about. The same decisions guard MCP tools (every command of a shell line; other tools by name, failing closed). Text prepared for the AI is cut only at character boundaries.",
  ['inputs', 'histories'], 'every command line, spelling, position, level, allow list and sequence of answers',
  'unit tests call the decision function with a few argument lists; what is missed depends on the position and spelling of the command on the whole line',
  ['dsh/src/safety/mod.rs', 'dsh/src/shell/eval.rs'],
  [('decision', 'SafetyGuard::check_command / check_jobs'), ('enforcement', 'refused_by_safety_guard'), ('MCP tools', 'SafetyGuard::check_mcp_tool'), ('AI text', 'SafetyGuard::sanitize_ai_input')],
  ['processes started by the shell', 'exit status', 'SafetyResult'],
  technique='exhaustive enumeration of dangerous forms x line positions x spellings x levels x allow lists and of answer sequences, run in the real shell with recording stand-ins', level='exploration', note='230 forms, 35 positions; answer sequences to 3 (4) lines on a pseudo-terminal'),
P('C02', 'Command lists, pipelines and substitutions run what they say',
  "A line runs exactly the commands it names: `;`, newline and `&` run the next command after the one before, `&&` only after success, `||` only after failure (equal precedence, left to right, status of a skipped command carried over), each at most once and in order, whether external, builtin, pipeline, captured (`|>`) or with a substitution. Every stage of a pipeline starts with the output of the stage before as its input and each command of the list starts with the shell's own input and output, whatever earlier ones redirected or piped. Builtins that change the shell (cd, export) do so for the commands that follow. A substitution runs its commands and passes their output words as arguments. The shell's exit status is that of the last command run (of a pipeline, its last stage). A line that is not a command list is refused as a whole: nothing of it runs.",
  ['inputs', 'schedules'], 'every list of commands, operators, pipelines and substitutions, with every combination of exit statuses',
  'unit tests run one or two commands with fixed statuses; operators, builtins and pipelines interact only in combination',
  ['dsh/src/shell/eval.rs', 'dsh/src/shell/parse.rs', 'dsh/src/parser/mod.rs', 'dsh/src/process/job.rs', 'dsh/src/shell.pest'],
  [('list evaluation', 'eval_str'), ('job construction', 'get_jobs / parse_jobs'), ('process launch and wiring', 'Job::launch / fork'), ('waiting', 'process/wait.rs'), ('grammar', 'shell.pest')],
  ['exit status and output of dsh -c', 'what each command was started with'],
  technique='exhaustive enumeration of all lines of a bounded grammar, each run in the real shell with recording stand-ins, against an interpreter of the language', note='all lists of up to 3 (4) items over 13 kinds of item and 5 operators (reduced alphabets at the deepest level); commands are stand-ins that record arguments, input and directory'),

P('C03', 'The job table says what runs, and its commands act on the right job',
  "On a terminal, a command ended with & gets its prompt back at once and runs on as a job; `jobs` lists exactly the jobs whose processes still run or are stopped, oldest first (a job stopped or continued moves to the end), each under a number that does not change, with its command and whether it is running or stopped; a stage of a pipeline that ends before the others does not end the job, nor hide it. `fg` (latest job) and `fg %N` bring the job to the foreground, continue it if it was stopped and return the prompt when it ends, is interrupted (Ctrl-C) or stopped (Ctrl-Z); `bg` and `bg %N` continue a stopped job in the background. A key or signal reaches every process of the job it is meant for, no other job and not the shell; the status of a command in the foreground is its own whatever other jobs do meanwhile. The shell gives a prompt after every command, collects every process that has ended, survives whatever happens to its jobs, and when it is left - exit warns once while there are jobs - leaves no process of a job behind.",
  ['histories', 'schedules'], 'every reachable state of the job table and every operation on each of its jobs',
  'unit tests set the state of process structures by hand; what waits for which process, who has the terminal and what is left after a stage or a job ended needs real processes in every state',
  ['dsh/src/process/job.rs', 'dsh/src/process/job_wait.rs', 'dsh/src/process/job_process.rs', 'dsh/src/process/process.rs', 'dsh/src/process/wait.rs', 'dsh/src/process/fork.rs', 'dsh/src/process/job_pty.rs', 'dsh/src/proxy/builtin/jobs.rs', 'dsh/src/shell/job.rs', 'dsh/src/repl/mod.rs'],
  [('state of a job', 'Job::update_status, JobProcess::overall_state'), ('waiting', 'wait_process_no_hang, poll_job'), ('fg, bg, jobs', 'proxy/builtin/jobs.rs'), ('background jobs', 'check_background_jobs')],
  ['table printed by jobs', 'state in /proc of every process of every job', 'prompt and status of each command', 'processes left after the shell'],
  state=[('jobs: stages alive, stopped, number, order', 'what jobs, fg and bg act on', 'Shell::wait_jobs'), ('state of each process', 'when a job is over', 'JobProcess')],
  technique='transition tours: walks that together take every transition of a model of the job table, driven in the real shell on a terminal, with and without a pseudo terminal per job; after each step the job table and /proc are compared with the model', note='every state of up to 2 (3) jobs of 1-2 stages, 34 (46) operations on each'),

P('C04', 'Arguments reach commands exactly as written',
  "Every argument of a command line reaches its command as exactly one word holding exactly the characters meant: a character escaped with a backslash, or inside single quotes (where only \\ and ' need escaping) or double quotes (\" \\ $ `), is literal; `$NAME` is the variable's value, whatever it contains, as one word; `~` at the start of an unquoted word is the home directory, whatever that contains; an unquoted pattern is replaced by the sorted names of the files that match it component by component (never the directory searched in, never split or parsed again, whatever characters the names contain), or stays as it is when nothing matches; braces with alternatives give one word per alternative in order, nested ones included, and `{}` stays. Words equal to the name of a variable are just words. This holds for the command's name too, and does not depend on what else is on the line (another expansion, a pipeline, a list, a substitution, a capture).",
  ['inputs'], 'every argument text, way of writing it, file name, variable value, home directory and surrounding line',
  'unit tests check a few fixed strings; injection needs the one combination of special character, quoting and expansion that is parsed twice',
  ['dsh/src/parser/expansion.rs', 'dsh/src/shell/parse.rs', 'dsh/src/shell.pest', 'dsh/src/completion/shell_path.rs'],
  [('expansion of aliases, ~, wildcards, braces', 'expand_alias_tilde / expand_braces'), ('argument construction', 'parse_argv'), ('unescaping', 'escape_unquoted & co.'), ('grammar', 'shell.pest')],
  ['argv of the processes dsh -c starts'],
  technique='exhaustive enumeration of all short words in every way of writing them, each passed by the real shell to a recording command, against the intended word', level='exploration', note='words to 2 characters over 39 (3 over 14; thorough 3 over 39), wildcard and brace patterns by structure'),

P('C05', 'Redirections connect commands to files',
  "`<`, `>`, `>>`, `2>`, `2>>`, `&>` and `&>>` apply to the command (pipeline stage) they are written on and to nothing else: `>` forms empty or create the file and `>>` forms append, the streams named get exactly the bytes the command wrote to them and the other streams go where they otherwise would (next stage, shell's output, shell's errors); with several redirections of one stream the last counts and the earlier files are still opened; a redirected input replaces the pipe. The file is complete when the command has finished, so the next command of a list reads all of it, and later commands of the line use the shell's own streams again. Any file name can be written, by the same quoting as arguments; quoted or escaped operators are ordinary arguments. When a target cannot be opened the command does not run, other files keep their contents, and the line reports failure.",
  ['inputs', 'histories'], 'every sequence of redirections on every stage of every pipeline of a list, every prior file content, file name and amount of data',
  'unit tests check that one redirect is parsed; nothing runs a redirected pipeline and looks at the files',
  ['dsh/src/process/io.rs', 'dsh/src/process/job.rs', 'dsh/src/process/job_process.rs', 'dsh/src/shell/parse.rs', 'dsh/src/shell.pest'],
  [('opening and ordering of targets', 'redirect_output / handle_output_redirect'), ('descriptor hand-over and closing', 'Job::launch_process'), ('parsing', 'parse_argv')],
  ['contents of the files, outputs and inputs of commands run by dsh -c'],
  technique='exhaustive enumeration of redirection sequences and placements, each run by the real shell on real files, against a model of the files', level='exploration', note='up to 2 (3) redirections per command over 3-4 files, one per stage on 2-stage pipelines, 7 choices per stage on 3 (4) stages, pairs on two-command lists'),

P('C06', 'Commands inherit the environment and are found where PATH says',
  "Every command started - alone, as a pipeline stage, in a substitution, from a list - gets exactly the environment the shell was started with, changed by what the user did before: `set -x` (and setenv in the configuration) sets a variable for all later commands, `export NAME=VALUE` and `export NAME` do the same with the new or current value (a name the shell inherited keeps its value), a plain `set` stays inside the shell until its name is exported, and a later change of an exported name is seen by later commands; $NAME is the same value. Nothing else is added, lost or altered (a missing or empty TERM gets a default), whatever the values are (empty, with spaces, newlines, =, multi-byte; a value that is not text does no harm). A command name without a slash runs the first executable file of that name in the directories of the current PATH, in order (builtins and aliases apart), whatever was found, put there, removed or made not executable earlier; changes of PATH by set -x, export or add_path count for the next line and are passed on. A name with a slash is a path from the current directory and never searched for.",
  ['histories', 'inputs'], 'every sequence of variable, export, PATH and file changes, every inherited value',
  'unit tests set one variable and read it back inside the shell; what children see after a sequence of operations, and stale lookups, are not observed',
  ['dsh/src/environment/mod.rs', 'dsh/src/environment/variables.rs', 'dsh/src/environment/paths.rs', 'dsh/src/process/process.rs', 'dsh/src/proxy/mod.rs', 'dsh-builtin/src/export.rs', 'dsh-builtin/src/set.rs', 'dsh-builtin/src/add_path.rs'],
  [('variables and exports', 'Environment'), ('lookup and its cache', 'Environment::lookup'), ('environment of children', 'Process::prepare_execution')],
  ['environment, program and PATH of the processes started by the shell'],
  state=[('variables, exported names, inherited environment', 'what $NAME is and what children see', 'Environment'), ('PATH directories and lookup cache', 'what a name runs', 'Environment')],
  technique='exhaustive enumeration of all operation sequences typed at the real shell, against a model of variables, exports and search path', note='20 variable operations to depth 3 (4), 15 PATH/file operations to depth 3 (4) from two starts, inherited environments by kind of value'),

P('C08', 'Command history keeps every command, in order, across sessions',
  "The history of a session lists every command recorded - by this session, by earlier ones and, after a reload, by sessions running at the same time - exactly once, ordered by when it was last run, with how often it was run, the directory context and the outcome (status, duration, directory, session) of its last run; a command running again has no outcome until it ends. A restart (whether the history is loaded at once or in two parts), a reload, another session's commands, a busy database, a writer that is behind, commands typed before the history is loaded and leaving the shell at any moment lose, duplicate, resurrect or reorder nothing. The newest command with a given prefix is what searching for the prefix finds.",
  ['histories', 'schedules'], 'every sequence of commands, outcomes, reloads and restarts of two sessions, every state of the background writer',
  'unit tests write two entries and read them back; what is lost at the seams - two-part load, reload, second session, background writer, exit - needs sequences',
  ['dsh/src/history/command_history.rs', 'dsh/src/history/entry.rs', 'dsh/src/db.rs', 'dsh/src/lib.rs'],
  [('recording', 'History::write_batch / record_outcome'), ('loading', 'load_recent / load_older_than / prepend'), ('merging with other sessions', 'History::reload'), ('background writer', 'start_background_writer / flush')],
  ['History::iter, search_first', 'rows of the history database', 'commands recalled in a terminal'],
  state=[('entries of the session', 'what is recalled and searched', 'History'), ('stored rows', 'what later sessions see', 'command_history table')],
  technique='exhaustive enumeration of operation sequences of two sessions on the real store, with and without a locked database, against a list model; whole shells on a terminal for start and exit', note='14 operations to depth 4 (5); 6 operations to depth 4 (5) while the store is locked'),
P('C09', 'Recalling and searching history finds every match, in order',
  "Up and Down walk through the history from the line being typed: Up shows the next older command that starts with what was typed (every command if nothing was), Down the next newer one and finally the typed text again; every matching command is reached, once, in order, the oldest included; going on past either end changes nothing and never crashes; Ctrl-C, Enter or emptying the line ends the filter, and what is shown is what Enter runs. Searching returns exactly the commands matching text (ignoring case), scope (session, directory, project), outcome and minimum duration, newest first, at most as many as asked for.",
  ['histories', 'inputs'], 'every key sequence over every history, every query over every history',
  'unit tests call back() twice on two entries; prefixes, both ends, edits in between and queries interact',
  ['dsh/src/history/command_history.rs', 'dsh/src/repl/key_handlers/navigation.rs', 'dsh/src/repl/mod.rs'],
  [('walking', 'History::back / forward'), ('keys', 'handle_history_previous / handle_history_next'), ('search', 'History::search_entries')],
  ['the command run after typing keys on a terminal', 'History::search_entries'],
  state=[('position, prefix, text of the line', 'what the next key shows', 'History, Input')],
  technique='exhaustive enumeration of key sequences typed at the real shell on a terminal, and of queries on the real search, against models', note='6 keys to length 5 (6); 720 queries over 156 histories'),
P('C10', 'Output and input of commands pass through whole and unchanged',
  "What a command writes arrives where the shell's own output goes: every byte, in order, whatever it is (incomplete lines, characters split between two writes, bytes that are no text), however long it pauses, however much it is and however slow the reader or the terminal; nothing is shown twice, its errors stay on standard error. This holds with -c, for a script on standard input, in the foreground of a terminal with and without a pseudo terminal, in a pipeline, and in the background - at the prompt and while another command runs; a reader that goes away ends the shell instead of blocking it. What is typed while a command on the terminal reads is exactly what it reads, end of input included, what it leaves is there for the next prompt, and the size of the terminal, also when it changes, is the size the command sees.",
  ['inputs', 'schedules'], 'every sequence of writes and pauses of a command, every size of output, every sequence of keys typed for it',
  'unit tests format one chunk of text; partial lines at a timeout, bytes that are no text and a terminal that takes no more only occur between real processes',
  ['dsh/src/process/io.rs', 'dsh/src/process/job_pty.rs', 'dsh/src/process/async_io.rs', 'dsh/src/process/job.rs', 'dsh/src/process/fork.rs', 'dsh/src/process/pty.rs'],
  [('captured output', 'OutputMonitor'), ('output of a pseudo terminal', 'PtyMonitor'), ('typed input', 'setup_pty_input_proxy')],
  ['bytes on standard output and error of the shell', 'bytes shown by the terminal', 'bytes read by a command'],
  state=[('what has been read and not yet shown', 'nothing is lost or repeated', 'OutputMonitor, PtyMonitor')],
  technique='exhaustive enumeration of sequences of writes (and of typed keys) of a command run by the real shell in each mode, compared byte for byte', note='7 kinds of piece to depth 3 (4) in 6 modes, 12 sizes up to 1 MiB with fast, slow and vanishing readers; 7 kinds of key to depth 3 (4) in 2 modes'),

P('C11', 'The directory history ranks directories right across restarts',
  "For every directory visited (and not excluded by Z_EXCLUDE) the directory history holds how often it was visited, when it was last visited, a score that is the number of visits each halved per 12 hours of age, and the project it belongs to; time passing, restarts, a session that runs for weeks, another session's visits and leaving at any moment lose or distort none of it, visits made before the history is loaded or right before leaving included. z -l lists the most recent first; z TEXT jumps to the best match, the higher score (doubled within the project) among equal ones; prefix searches give the best-scored directory; z -c forgets exactly the directories that no longer exist.",
  ['histories', 'inputs'], 'every sequence of visits, saves, reloads, restarts, crashes and prunings of two sessions, from young and old stores',
  'unit tests add a few paths to one store in one instant; ages, reference times and merging only show over restarts and sessions',
  ['dsh/src/history/frecency_history.rs', 'dsh-frecency/src/store.rs', 'dsh-frecency/src/stats.rs', 'dsh/src/proxy/builtin/z.rs', 'dsh/src/proxy/mod.rs'],
  [('scoring', 'ItemStats::update_frecency / FrecencyStore::add'), ('storing and merging', 'FrecencyHistory::save / load_items / reload'), ('exclusion', 'save_path_history')],
  ['FrecencyHistory::sorted / search_prefix / sort_by_match', 'z -l and where z leads'],
  state=[('score, last visit, visits', 'per directory', 'ItemStats'), ('reference time', 'what scores are relative to', 'FrecencyStore')],
  technique='explicit-state exploration of operation sequences of two sessions on the real store against a model of ages and scores', note='41000 sequences to depth 4 (5) over six starting populations; the later visit decides a merged entry'),
P('C15', 'Captured output history is a bounded, ordered, addressable record',
  "After any sequence of captures and clears, reference N ($OUT[N]/$ERR[N]; plain $OUT/$ERR means 1) yields exactly the Nth most recent captured output that is still held, and any other index or malformed reference yields nothing. The history holds no more entries than its limit and never more than its total size limit except for a single newest entry; it evicts oldest entries first and only as many as needed, and its tracked size equals what it stores. A capture within the per-entry limit is stored unchanged; a longer one is cut at character boundaries to a prefix of each stream that together fit and (nearly) fill the limit, and each cut stream ends with the truncation marker.",
  ['histories', 'inputs'], 'every sequence of captures (any stdout/stderr sizes, multi-byte text) and clears, for every combination of limits; every reference name',
  'unit tests push at most four entries under one configuration and one multi-byte string',
  ['dsh-types/src/output_history.rs', 'dsh/src/environment/variables.rs'],
  [('ring buffer push/evict', 'OutputHistory::push'), ('proportional truncation', 'OutputEntry::truncate'), ('reference parsing', 'parse_output_var')],
  ['OutputHistory accessors', 'variable lookup'], 
  technique='explicit enumeration of all operation sequences on the real ring buffer against a list model', note='exhaustive to depth 4 (5 thorough) over 10 output shapes and 27 limit configurations; limits scaled down'),

P('C16', 'Notebooks round-trip and recording only appends',
  "Loading any notebook document and saving it back reproduces it byte for byte: the loaded blocks, concatenated, are the file. Every fenced code block of the document (any fence character and length, any language, closed or not) is found in order with its language and its exact code, text blocks being outputs. Recording code or output appends to the file without altering what it already holds, and reloading yields the same sequence of code and output blocks with the recorded text (trimmed), whatever that text contains, fences included; the open notebook and its file never diverge.",
  ['inputs', 'histories'], 'every Markdown document and every sequence of recorded commands, outputs and reopenings over it',
  'unit tests round-trip two documents; which texts and nestings break block boundaries needs enumeration',
  ['dsh-types/src/notebook.rs', 'dsh/src/shell/mod.rs', 'dsh-builtin/src/notebook_play.rs'],
  [('block partition', 'Notebook::load_from_file'), ('executable text of a block', 'Block::raw_content'), ('recording', 'Notebook::append_code / append_output')],
  ['notebook file bytes', 'Notebook.blocks'],
  technique='explicit enumeration of documents and recording sessions on the real notebook against a block-list model', note='all documents of up to 4 (5) lines over 19 line shapes, LF and CRLF; all sessions of up to 2 (3) operations over 8 starting documents'),
P('C17', 'The line editor edits exactly what it should',
  "The editing buffer always behaves as a sequence of characters with a cursor: after any sequence of insertions, deletions (character, word, to start, to end), cursor and word movements, mouse-column placement, range replacement, abbreviation replacement, resets and clears, the text is exactly the one those operations define, text outside the affected range is unchanged, the cursor is a valid character position, and the reported length, display width, character at each index, split at the cursor, current word, cursor cell and line count (with wrapping, newlines, wide and zero-width characters) agree with text and cursor. Out-of-range requests change nothing. What is drawn is the text. No sequence panics.",
  ['histories', 'inputs'], 'every text (multi-byte, wide, zero-width, newlines), every cursor position, every operation sequence',
  'unit tests run single operations on a handful of strings; index corruption needs sequences over mixed-width text',
  ['dsh/src/input/editor.rs'],
  [('incremental byte index', 'shift_indices_from / update_indices'), ('cached width', 'cached_display_width'), ('word replacement', 'replace_current_word')],
  ['Input accessors', 'Input::print'], state=[('text, cursor', 'the edited line', 'Input'), ('indices, cached width', 'derived from the text', 'Input')],
  technique='explicit-state exploration of all (text, cursor) states and operations on the real editor against a character-vector model', note='texts to 4 (5) characters over 7 character classes, 60 operations, operation pairs/triples on shorter texts'),
P('C18', 'Lisp means what it says, and nothing it is given ends the shell',
  "For every text given to the shell's Lisp (config file, lisp builtin, -l, defined commands, hooks): reading it gives the one value the grammar defines - strings with escapes, numbers, names with letters of any width, quotes, comments, nesting - or an error; evaluating it gives the value and leaves exactly the bindings that the definitions of the forms and functions give, wherever the expression stands (at the top, in the tail or an argument of a function, in a let, in a macro expansion, quoted and evaluated); functions and macros see the bindings they were made with, and native functions those they are called with. Comparison is one total order that agrees with equality, and sort follows it. Whatever has no value - arithmetic without a result, wrong kinds, unknown names, unbounded recursion, text nested without end - is an error after which the same session evaluates on, and a failing Lisp command fails the command line it stands in. Data of any length is read, built, printed, compared and released.",
  ['inputs', 'programs'], 'every text over the reader\'s characters and every program of two levels of forms in every kind of position',
  'unit tests evaluate some dozens of fixed programs; tail positions, macros, shadowing and malformed or deep texts combine into cases nobody wrote down',
  ['dsh/src/lisp/parser.rs', 'dsh/src/lisp/interpreter.rs', 'dsh/src/lisp/default_environment.rs', 'dsh/src/lisp/model/value.rs', 'dsh/src/lisp/model/list.rs', 'dsh/src/lisp/model/env.rs', 'dsh/src/lisp/stdlib/list.rs', 'dsh/src/proxy/builtin/lisp.rs'],
  [('reader', 'parser::parse'), ('evaluator', 'interpreter::eval_inner, call_to_end'), ('bindings', 'model::Env'), ('order', 'Ord for Value'), ('lisp builtin', 'execute_lisp')],
  ['value or error of LispEngine::run', 'bindings afterwards', 'dsh -l output and status', 'status of lisp …'],
  state=[('bindings', 'what names mean, per frame', 'Env')],
  technique='exhaustive enumeration of all texts to a length and all programs of two levels of forms in seven positions, against a reference reader and evaluator', note='texts to 5 (6) characters, 31 forms in each hole of 31 forms, in 7 positions; all pairs and triples of 23 values; list of programs without value or with very deep or long data'),
P('C19', 'The screen shows the line being edited, and Enter runs what it shows',
  "While a line is edited at a terminal of any width, after every key the screen shows the prompt mark and exactly the text being edited, wrapped as the terminal wraps it (also where it just fills a row, at wide letters, and over line breaks), with the cursor before the character that the next key edits; nothing of an earlier text is left below or beside it, and nothing that was on the screen above the prompt is changed. A suggestion is set apart by its colour, and the keys that accept it insert what was shown and keep what was typed. Enter runs exactly the text shown and leaves it on the screen once, with the output of the command below it; Ctrl-C leaves it and starts a new line; Ctrl-L clears the screen.",
  ['inputs', 'histories'], 'every sequence of editing keys from texts that end before, at and after the edge of the terminal, for several widths',
  'unit tests look at the computed position of a cursor in a few texts; what a terminal shows after a sequence of redraws is never looked at',
  ['dsh/src/repl/render.rs', 'dsh/src/repl/mod.rs', 'dsh/src/repl/key_handlers/navigation.rs', 'dsh/src/repl/key_handlers/editing.rs', 'dsh/src/repl/key_handlers/execution.rs', 'dsh/src/repl/input_analysis.rs', 'dsh/src/input/editor.rs'],
  [('redraw', 'repl::render::print_input'), ('cursor', 'Input::cursor_pos, move_cursor_relative'), ('suggestion', 'analyze_input, get_completion_from_history'), ('run', 'handle_execute')],
  ['screen of an emulated terminal', 'cursor position', 'commands run and their arguments'],
  state=[('screen', 'what the user sees', 'escape sequences written to the terminal')],
  technique='exhaustive enumeration of all key sequences typed at the real shell on an emulated terminal, screen compared with a reference layout after every key', note='15 keys, sequences to 2 (3 thorough) from 17 texts at 2 widths (3 thorough)'),
P('C21', 'Directory changes go where they say, or change nothing',
  "After any sequence of directory changes - cd to a relative, absolute, home-relative, dotted or linked path, without argument to the home directory, with - to the previous directory, or by naming a directory as a command - the shell, the commands it starts and their PWD are in the directory meant (links resolved), OLDPWD is the directory before the last change, the status of each change tells whether it happened, and the on-chdir hook has run once per change. A change that fails (missing, a file) leaves directory and OLDPWD as they were and fails the line's &&. A change in a substitution does not move the shell; an empty argument names the current directory. When the current directory is removed, relative changes fail and absolute, home and previous ones still lead out of it.",
  ['histories'], 'every sequence of directory changes over a tree with links, files, odd names and directories that disappear',
  'unit tests call cd once; what a sequence of failing, previous and linked changes leaves behind is not looked at',
  ['dsh/src/proxy/mod.rs', 'dsh-builtin/src/cd.rs', 'dsh/src/shell/hooks.rs', 'dsh/src/shell/eval.rs'],
  [('cd builtin', 'dsh_builtin::cd'), ('change', 'ShellProxy::changepwd'), ('hooks', 'exec_chpwd_hooks')],
  ['directory and PWD of processes started', '$OLDPWD', 'status', 'hook output'],
  state=[('current and previous directory', 'where commands run, where cd - goes', 'process, OLDPWD')],
  technique='exhaustive enumeration of all sequences of directory changes typed at the real shell, against a model of current and previous directory', note='30 changes to depth 2 (4 thorough), 14 to depth 3, 6 to depth 4 (5)'),
P('C26', 'config.lisp takes effect as a whole or not at all, each time it is loaded',
  "For every configuration file, at start and on reload: if all of it can be read and run, every entry has had its effect - aliases, abbreviations, PATH (for lookups and for programs started), variables, environment, safety level, preferences, secrets, allow lists, MCP servers, direnv roots, completions, palette actions, functions, macros, values, hooks - in the order written. If any part fails - an unknown name, a wrong argument, an error at any depth, unbounded recursion, a stray or missing parenthesis or quote, bytes that are no text, a missing file - none of it has: everything is exactly as before the load, also names already replaced and entries already removed, reload says so and its command fails, and the session runs on. Loading a file again leaves what loading it once leaves: hooks and completions are those of the last file that loaded, once each.",
  ['inputs', 'histories'], 'every list of entries, every way to fail at every position, and every sequence of such files loaded one after the other',
  'one unit test fails one file at its end and looks at some of what it may change; failing while reading, other kinds of entries, and loading again are not looked at',
  ['dsh/src/lisp/mod.rs', 'dsh/src/lisp/builtin.rs', 'dsh/src/lisp/default_environment.rs', 'dsh/src/lisp/stdlib/mcp.rs', 'dsh/src/proxy/builtin/reload.rs', 'dsh/src/secrets.rs', 'dsh/src/environment/mod.rs'],
  [('loader', 'LispEngine::run_config_lisp'), ('snapshot', 'EnvironmentSnapshot'), ('entries', 'lisp::builtin')],
  ['Environment, secrets, palette actions, Lisp bindings, process environment', 'what commands do around reload'],
  state=[('configuration', 'everything a configuration file may change', 'Environment, Env, REGISTRY')],
  technique='exhaustive enumeration of configuration files and sequences of them through the real loader, against an all-or-nothing model of everything they may change', note='47 entries to length 2 (3) loaded twice; all pairs of files; 16 ways to fail x all pairs of entries x 3 positions; 5 files to 3 (4) reloads in the real shell'),
P('C27', 'Hooks run when they should, with what happened, whatever they hold',
  "For every list of hook functions - also ones that fail, take other arguments, are no functions, recurse without end or run programs that are not there - and every command line: pre-exec hooks run once before each command that is run (not one skipped by && or ||) with its text after aliases are expanded, post-exec hooks once after it with that text and its exit status (also for captured output, commands with a Lisp expression, builtins, commands killed by a signal), on-chdir hooks once per change of directory, project hooks once per arrival in another project with its name, command-not-found hooks with the unknown name, pre-prompt hooks once per prompt, completion hooks with the text and the cursor. The hooks of one kind run newest first; a failing one does not stop those after it, the command, the rest of the line or the prompt, and changes no exit status. Texts, names and project names reach the hooks as the very characters, whatever they mean to Lisp.",
  ['histories', 'inputs'], 'every list of working and failing hooks, every list of commands and operators, every text over characters Lisp gives a meaning',
  'unit tests call a hook list with one function and one plain word; failing hooks, texts with quotes and lists of commands are not combined',
  ['dsh/src/shell/hooks.rs', 'dsh/src/shell/eval.rs', 'dsh/src/proxy/mod.rs', 'dsh/src/repl/mod.rs', 'dsh/src/lisp/mod.rs'],
  [('hooks', 'exec_pre_exec_hooks, exec_post_exec_hooks, exec_chpwd_hooks'), ('text of a job', 'parse_commands'), ('calls', 'LispEngine')],
  ['what the hooks start, in which order and with which arguments', 'status of the line', 'prompt'],
  state=[('hook lists', 'functions called at each event', 'Lisp environment')],
  technique='exhaustive enumeration of hook lists, command lists and texts on the real shell, against a model of the events of a command list', note='hook lists to 3 of 9 functions; command lists to 2 (3) of 16 commands; texts to 2 (3) of 13 pieces; walks over 5 directories to 3 (4); 8 key sequences to 2 (3)'),
]
