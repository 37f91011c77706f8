"""The properties (properties.jsonl and the per-check text of MANIFEST.json are generated from here)."""

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, level_note=None, na=None, observe=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                     'observe_at': observe or [], 'hook_needed': None}}
    if technique:
        d['technique'] = technique
    d['level_note'] = level_note or ''
    if na:
        d['na'] = na
    PROPS.append(d)


ENGINE = 'path-sensitive interprocedural typestate analysis over the Python syntax tree'

# ---------------------------------------------------------------------------------------------------------------- F
P('F01', 'End of input reaches every operator exactly once, after all output',
  'When the input of a pipeline ends, every operator tells its downstream operator so exactly once on every path that '
  'finishes normally, and sends it no output afterwards; an operator never signals end of input while it is still producing or '
  'receiving. A pipeline nested in an operator that is fed item by item is itself told of the end of its input, exactly '
  'once, when its owner is. Everything that executes a pipeline runs it and then signals the end of input to it, exactly once.',
  ['programs', 'inputs'], 'for every operator, every argument combination and every path through its code, in any pipeline',
  'Tests run one pipeline per flag combination; a path of one operator that loses or repeats the end-of-input signal only shows '
  'when an operator that buffers (sort, red, tail, sum, window) follows it.',
  ['marcel/core.py', 'marcel/pipeline.py', 'marcel/op/'],
  [('Op.flush / Op.propagate_flush', 'marcel/core.py'), ('Pipeline*.run_pipeline', 'marcel/pipeline.py'),
   ('flush() of each operator', 'marcel/op/*.py')],
  ENGINE + ': flush protocol',
  'Decides the flush protocol for every operator class and pipeline executor found in the source, over all structural paths with '
  'calls inlined; exceptional paths are exempt (they end the pipeline). Trusts that setup() attributes proven non-None stay so.')

P('F02', 'Input held back by an operator is delivered or accounted for at end of input',
  'An operator that retains items as they arrive instead of passing them on (sorting, grouping, joining, windowing, keeping the '
  'last few) uses everything it retained when its input ends, before it signals end of input downstream: no path that finishes '
  'normally discards a non-empty store of retained items unread.',
  ['programs', 'inputs'], 'for every operator that stores received items, every input sequence and every argument combination',
  'Tests check a few input lengths; a skipped drain only shows for specific lengths and flag combinations.',
  ['marcel/op/sort.py', 'marcel/op/red.py', 'marcel/op/window.py', 'marcel/op/tail.py', 'marcel/op/args.py', 'marcel/op/join.py',
   'marcel/op/intersect.py', 'marcel/op/unique.py', 'marcel/op/reverse.py', 'marcel/op/sum.py'],
  [('receive stores into an attribute; flush reads it before propagate_flush', 'marcel/op/*.py')],
  ENGINE + ': store-then-drain', '')

P('F03', 'Running a pipeline again starts from fresh operator state',
  'A pipeline may be run many times (in a pipeline variable, once per item by args, in each forked worker, or after a run that '
  'failed half-way); each run behaves as the first one would. No operator lets counters, buffers, groups or \"first item seen\" '
  'flags accumulated by an earlier run influence a later one, and no operator\'s configuration data hides part of the operator '
  'protocol (such as copying) when a pipeline is reused.',
  ['programs', 'histories'], 'for every operator and every sequence of runs of one pipeline object, including aborted runs',
  'Tests build a new pipeline per assertion; the second run of the same operator object is exercised for a handful of operators.',
  ['marcel/op/', 'marcel/core.py', 'marcel/pipeline.py'],
  [('setup() re-initialises the run state', 'marcel/op/*.py'), ('AbstractOp.copy', 'marcel/core.py')],
  'definite-reinitialisation dataflow over operator classes', '')

P('F04', 'Errors travel through a pipeline as errors and are never treated as data',
  'An error produced by an operator, a nested pipeline, a forked worker, a remote host, a subprocess or a superuser command is '
  'delivered to the rest of the pipeline as an error: it is forwarded by every operator on every path, is not passed to user '
  'functions or operator logic as though it were data, and is not dropped.',
  ['programs', 'inputs', 'fault_sequences'], 'for every operator position an error may reach, and every source of errors',
  'Tests provoke errors in a few operators followed by a few others; the property quantifies over all pairs.',
  ['marcel/core.py', 'marcel/op/'],
  [('Op.receive_input / receive_error / send_error', 'marcel/core.py'), ('receive_error overrides', 'marcel/op/*.py')],
  ENGINE + ': error forwarding and error/data separation', '')

P('F05', 'A failing user function costs only the item it failed on',
  'Whenever an operator applies a function supplied by the user (mapping, filtering, grouping, keys, predicates, reductions) and '
  'it raises, the failure is reported as an error for that item and the operator goes on with the next item; it never '
  'ends the command or escapes as a raw exception.',
  ['programs', 'inputs', 'fault_sequences'], 'for every operator with a function argument, every function and every item on which it fails',
  'Tests use a division by zero in a few operators; each call site needs the protection.',
  ['marcel/core.py', 'marcel/op/'], [('Op.call', 'marcel/core.py')],
  'call-site query: user-function values may only be invoked by the protecting call wrapper', '')

P('F06', 'Function arguments work wherever a pipeline is executed',
  'A pipeline whose operators take function arguments gives the same results in the foreground, in a background job, in each '
  'worker of a fork, on a remote host and under sudo: compiled functions are not transmitted, so each function argument of '
  'every operator, including those in nested pipelines, is compiled in the executing process before the pipeline runs.',
  ['programs', 'configurations'], 'for every operator with function arguments, at every nesting depth, in every execution context',
  'The tests run most operators in one context only (foreground job).',
  ['marcel/core.py', 'marcel/op/', 'marcel/pipeline.py', 'marcel/job.py', 'marcel/op/forkmanager.py', 'bin/farcel.py'],
  [('ensure_functions_compiled', 'marcel/core.py, marcel/op/*.py, marcel/pipeline.py')],
  'attribute-coverage dataflow plus must-precede typestate at each execution site', '')

P('F07', 'Operators are cleaned up however a pipeline ends',
  'Every operator whose setup was started is cleaned up when its pipeline ends, whether the pipeline finishes, an operator fails, '
  'the command is killed, or a later part of setup fails. The cleanup of one operator does not depend on that of another '
  'succeeding, may safely be repeated, and cannot fail because the operator was only partly set up.',
  ['programs', 'fault_sequences'], 'for every pipeline and every way in which it can end',
  'Tests do not observe cleanup after failures.',
  ['marcel/pipeline.py', 'marcel/op/', 'bin/farcel.py'], [('finally: cleanup()', 'marcel/pipeline.py')],
  ENGINE + ': run/cleanup bracket', '')

P('F08', 'Files, connections and processes opened by operators are closed',
  'Whatever an operator or the shell opens for its own use - files, database connections and cursors, pipes, temporary files - it '
  'closes on every path, including paths on which reading, writing or executing fails.',
  ['programs', 'fault_sequences'], 'for every acquisition in the source and every path that leaves its owner',
  'Leaks have no visible effect in short-lived tests.',
  ['marcel/op/', 'marcel/util.py', 'marcel/persistence/', 'marcel/object/'], [('with / finally / cleanup', 'marcel')],
  ENGINE + ': acquire/release', '')

P('F09', 'An operator that cannot produce or cannot accept input is rejected up front',
  'An operator that needs input (args, join, sort, unique, window) is rejected if it is placed first in a pipeline, and one that takes no input is rejected '
  'if it is placed after another operator, with a message and before any operator has run; no such pipeline is silently '
  'accepted, drops its input, or fails with an internal error.',
  ['programs'], 'for every operator and every position, in commands, nested pipelines, and the API',
  'Tests try the misplacement of a few operators.',
  ['marcel/core.py', 'marcel/pipeline.py', 'marcel/parser.py', 'marcel/op/'],
  [('must_be_first_in_pipeline / must_not_be_first_in_pipeline', 'marcel/op/*.py'), ('PipelineExecutable.setup', 'marcel/pipeline.py')],
  'class-hierarchy query: declared position against implemented entry points', '')

P('F10', 'Describing an operator never fails',
  'The printed form of any operator, pipeline or value object - which is used in error messages, tracing and job listings - can '
  'be produced at any time, in particular before the operator is set up, after it is cleaned up, and for every combination of '
  'absent optional arguments.',
  ['programs', 'inputs'], 'for every operator and value class, in each state in which its printed form may be requested',
  'Printing happens on error and tracing paths that the tests rarely reach.',
  ['marcel/op/', 'marcel/core.py', 'marcel/object/'], [('__repr__', 'marcel/op/*.py')],
  'definite-initialisation dataflow from constructors to __repr__', '')

P('F11', 'Output of concurrent producers is complete before end of input is signalled',
  'An operator that obtains its output from workers, threads, remote hosts or subprocesses does not finish producing (and so '
  'does not let the end of input be signalled) before every worker it started has ended and all it delivered has been '
  'passed on.',
  ['schedules', 'programs'], 'for every operator that starts a thread, process or subprocess, and every completion order',
  'Which worker finishes last depends on scheduling; tests see a few schedules.',
  ['marcel/op/forkmanager.py', 'marcel/op/bash.py', 'marcel/op/remote.py', 'marcel/op/sudo.py'],
  [('join / wait before return', 'marcel/op')], ENGINE + ': start/join', '')

# ---------------------------------------------------------------------------------------------------------------- N
P('N01', 'Pipeline parameters are visible exactly while their pipeline runs',
  'The variables bound to a pipeline\'s parameters come into existence when it starts and disappear when it ends - '
  'normally, with an error, or killed - restoring whatever variables of the same name they hid.',
  ['programs', 'fault_sequences'], 'for every parameterised pipeline and every way it can end',
  'A leaked scope changes the meaning of later commands only, after a failure.',
  ['marcel/nestednamespace.py', 'marcel/pipeline.py', 'marcel/env.py'],
  [('push_scope / pop_scope', 'marcel/nestednamespace.py'), ('run_pipeline', 'marcel/pipeline.py')],
  ENGINE + ': push/pop balance', '')
P('N02', 'All views of a variable agree',
  'Assigning, importing or deleting a variable changes every view of it - what functions see, what commands see, what is '
  'saved with the workspace, and what the vars command lists; a deleted variable does not come back and an assigned one is '
  'not lost.',
  ['histories'], 'for every sequence of assignments, imports and deletions',
  'Each view is tested separately, right after one update.',
  ['marcel/nestednamespace.py', 'marcel/env.py'], [('NestedNamespace.assign/__delitem__', 'marcel/nestednamespace.py')],
  ENGINE + ': paired updates', '')
P('N03', 'Variables owned by marcel cannot be reassigned or deleted by users',
  'The variables that describe marcel\'s own state (current directory, directory stack, user, host, version and the like) are '
  'maintained by marcel only: every user-reachable way of assigning, importing over or deleting a variable refuses them.',
  ['programs', 'histories'], 'for each owned variable and each way of changing a variable',
  'Tests check one refusal.',
  ['marcel/env.py', 'marcel/api.py', 'marcel/main.py'], [('immutable check', 'marcel/env.py')],
  'call-graph domination query', '')
P('N04', 'Every kind of variable value survives saving and restoring a workspace',
  'Each kind of value a variable may hold (plain values, functions, pipelines, modules and imported names) is written '
  'with the workspace in a form that reopening it turns back into the same kind of value, with every datum that is needed.',
  ['histories', 'inputs'], 'for every kind of value and every attribute of its saved form',
  'The tests save and restore three kinds.',
  ['marcel/nestednamespace.py', 'marcel/env.py', 'marcel/object/workspace.py'],
  [('EnvValue subclasses', 'marcel/nestednamespace.py')], 'writer/reader agreement query over the value classes', '')
P('N05', 'Variable changes made by a command are returned to the shell',
  'A command that runs in its own process returns every variable it assigned, changed, imported or deleted to the '
  'interactive shell when it ends, also when it fails; the shell applies each change it receives and ignores none.',
  ['programs', 'fault_sequences'], 'for every job, every kind of change and every way a job can end',
  'Only the assignment in a successful command is tested.',
  ['marcel/job.py', 'marcel/nestednamespace.py'], [('run_command_in_child', 'marcel/job.py')],
  ENGINE + ': send-on-every-exit and message-kind agreement', '')

# ---------------------------------------------------------------------------------------------------------------- W
P('W01', 'A workspace is used by one process at a time',
  'The variables of a named workspace are read and saved, and the workspace is closed, deleted or moved away, only while the '
  'process holds its lock; the lock is granted to one process at a time, and taken from another process only if that process no longer exists; '
  'failing to obtain it is reported and leaves the workspace untouched; and it is given up on every path on which the workspace is '
  'closed or fails to open.',
  ['schedules', 'histories', 'fault_sequences'], 'for every workspace operation and every interleaving of two processes',
  'Tests simulate a second owner once.',
  ['marcel/object/workspace.py', 'marcel/op/ws.py', 'marcel/main.py'], [('lock / unlock', 'marcel/object/workspace.py')],
  ENGINE + ': lock discipline', '')
P('W02', 'Saved workspace state survives a failed or interrupted save',
  'At every moment, a workspace\'s saved variables and properties are either the previous or the new complete '
  'version: a save that fails or is interrupted at any point leaves the previously saved version readable and the workspace valid. '
  'Closing a workspace saves it, and a failure to do so is reported.',
  ['crash_points', 'fault_sequences'], 'for every state file written and every point at which the write may stop',
  'Tests never interrupt a save.',
  ['marcel/object/workspace.py', 'marcel/locations.py', 'marcel/persistence/'],
  [('write to temporary file, then replace', 'marcel/object/workspace.py')], 'effect-order analysis of file writes', '')
P('W03', 'Workspace operations touch only the named workspace',
  'Creating, opening, editing, closing or deleting a workspace affects only the files of that workspace: every '
  'name supplied by the user is validated before it becomes part of a path, every path of a workspace contains its name, and files '
  'that belong to another running process are not removed.',
  ['inputs'], 'for every name a user can supply and every file operation it reaches',
  'Tests use well-formed names.',
  ['marcel/object/workspace.py', 'marcel/op/ws.py', 'marcel/locations.py'], [('Workspace.check_name', 'marcel/object/workspace.py')],
  'taint analysis from command arguments to file-system sinks', '')
P('W04', 'Upgrading the on-disk layout loses nothing',
  'Starting a newer marcel on the files of any older layout brings them to the current layout by a complete chain of '
  'upgrades, moving the configuration, variables, reservoirs and histories that the old layout kept to where the '
  'new one looks for them; an upgrade interrupted at any point is completed by the next start, and old files are removed '
  'only after what replaces them is complete. Whatever starts first - the shell, the API or a remote marcel - does this before it uses '
  'any of the files. (Histories in readline format are replaced by a note.)',
  ['histories', 'crash_points'], 'for every historical layout and every crash point of its upgrade',
  'No test starts from an old layout.',
  ['marcel/persistence/storagelayout.py'], [('StorageLayout chain', 'marcel/persistence/storagelayout.py')],
  'chain completeness query and effect-order analysis', '')

# ---------------------------------------------------------------------------------------------------------------- J
P('J01', 'Commands that change the shell run inside the shell',
  'An operator whose effect must outlive the command in the shell itself - changing directory or the directory stack, assigning or importing '
  'variables, switching workspaces, listing, resuming or backgrounding jobs, repeating or editing commands, tracing, exiting - runs in the '
  'shell\'s own process when it is the first operator of a command, and is rejected elsewhere in a pipeline. '
  'A change of directory made by a job all the same (by an operator nested in its arguments) is made in the shell when the job ends.',
  ['programs'], 'for every operator and every effect on the shell reachable from it',
  'A misplaced effect is lost silently; tests run in a configuration where this is not visible.',
  ['marcel/core.py', 'marcel/op/', 'marcel/job.py', 'marcel/main.py'], [('run_in_main_process', 'marcel/op/*.py')],
  'effect analysis over the call graph against the declared execution place', '')
P('J03', 'Locks are released on every path',
  'Every lock taken inside marcel is released on every path out of the code that took it, including paths that raise, so that '
  'no failure can block the shell for ever.',
  ['schedules', 'fault_sequences'], 'for every lock acquisition and every path from it',
  'The failing paths are not exercised.',
  ['marcel/job.py', 'marcel/op/', 'marcel/util.py'], [('with lock / finally release', 'marcel')], ENGINE + ': lock balance', '')
P('J04', 'Requests to stop, exit or reconfigure are never swallowed',
  'The signals by which marcel stops a command, leaves the shell or restarts its configuration take effect wherever they '
  'are raised: no error handling on the way consumes them, except the places whose purpose is to act on them.',
  ['programs', 'fault_sequences'], 'for every raise of a control request and every handler on any call path above it',
  'Tests raise few of these through few of the handlers.',
  ['marcel/exception.py', 'marcel/core.py', 'marcel/job.py', 'marcel/main.py', 'marcel/pipeline.py'],
  [('BaseException-derived control exceptions', 'marcel/exception.py')], 'exception-flow analysis of broad handlers', '')

P('J05', 'Every command is run once, and none ends the shell',
  'A command the user enters is run exactly once - also if marcel must first restart because its startup script changed - and however '
  'it fails (a syntax error, a bad argument, a failing operator or function, an interrupt), the failure is reported and the shell '
  'goes on with the next command; only a request to exit and the end of the input end it. A script runs each of its commands, in order, '
  'also after one that failed or switched workspaces. Functions in the prompt, and recalling and editing commands, '
  'cannot bring the shell down either.',
  ['inputs', 'fault_sequences'], 'for every command and every way in which it can fail, at every point of the loop that reads commands',
  'Tests call the function that runs a command directly, with commands that work or fail in expected ways; the loop of the '
  'interactive shell, its restarts and its interrupts are never run.',
  ['marcel/main.py', 'marcel/env.py', 'marcel/reader.py'],
  [('MainScript.parse_and_run_command', 'marcel/main.py'), ('MainInteractive.run', 'marcel/main.py'),
   ('restart on ReconfigureException', 'marcel/main.py'), ('commands_in_script', 'marcel/main.py')],
  ENGINE + ': exception flow and the state of the pending command')

P('G01', 'Every path of the code can run: nothing refers to what does not exist',
  'Code that runs rarely - error handling, unusual options, failures of other processes, old file formats - does what it is there '
  'for, instead of failing with an internal error: every variable, module, attribute, function and argument that any part of '
  'marcel refers to exists where it is referred to, and every call passes arguments that the called function or class accepts.',
  ['programs', 'inputs'], 'for every function of marcel and every reference and call in it, whether or not any test reaches it',
  'Python reports a bad reference only when it is executed; the paths on which these hide are those that no test takes.',
  ['marcel/', 'bin/farcel.py'],
  [('every function', 'marcel/**/*.py')],
  'name, attribute and signature resolution over the syntax tree')

# ---------------------------------------------------------------------------------------------------------------- C
P('C01', 'The Python API and the command line accept the same operators and options',
  'Every operator except those that control the interactive shell (jobs, history, workspaces, help) is offered by the API. '
  'Every option and argument the command line accepts for an operator can be given through its API function, '
  'and reaches the operator\'s argument parser as that same option, if and only if it was requested, with the value given.',
  ['programs', 'inputs'], 'for every operator, every option and every argument',
  'Tests use most options through one interface only.',
  ['marcel/api.py', 'marcel/op/', 'marcel/argsparser.py', 'marcel/builtin/'], [('API function / ArgsParser of each operator', 'marcel/op/*.py')],
  'agreement query between each operator\'s API function and its argument parser', '')
P('C02', 'Every operator is registered consistently',
  'Every operator that exists can be invoked: it is listed among the available operators, has the parts the command line needs '
  '(creation, argument parsing, help), and each argument the parser fills in exists in the operator.',
  ['programs'], 'for every operator module',
  'An omitted registration is only seen by using that operator.',
  ['marcel/builtin/__init__.py', 'marcel/opmodule.py', 'marcel/op/', 'marcel/argsparser.py'], [('registry', 'marcel/op/__init__.py')],
  'registry exhaustiveness query', '')
P('C03', 'Help documents exactly the options that exist',
  'The help text of an operator mentions each option the operator accepts, and no option that it does not accept.',
  ['programs'], 'for every operator and option', 'Help is not compared with the parser by any test.',
  ['marcel/op/'], [('HELP text', 'marcel/op/*.py')], 'agreement query between help text and argument parser', '')


# What assurance each check gives, and what it trusts (the level_note of MANIFEST.json).
LEVEL = {
    'F02': 'Every store of received items found in the source, over all structural paths of receive and flush. A store is recognised as '
           'an attribute (or an attribute of a helper object) that receive puts its argument, or something derived from it, into; '
           'what is computed from the items (the sort order, the sum) is not judged.',
    'F03': 'All attributes that the run phase can change, found by an interprocedural write analysis; each must be written afresh on every '
           'path of the setup phase, or before it is read in the run. Objects of other libraries are taken to be stateless unless stored '
           'in an attribute.',
    'F04': 'All paths of every receive_error, and all flows of values that may be errors that stay within locals, attributes, helpers and '
           'returns. Containers of mixed values are followed one level deep.',
    'F05': 'All call sites of user functions, found by tracking the function-valued arguments through attributes, helpers and calls; '
           'wrappers are judged on all their paths. Functions called by the standard library (sort keys) count as call sites.',
    'F06': 'Coverage of all function- and pipeline-valued attributes of all operators by ensure_functions_compiled, on all paths, and '
           'must-precede at all executors of transmitted pipelines. The result of the functions themselves is not judged.',
    'F07': 'All places that set up or run pipelines and all paths out of them, exceptional ones included; all cleanup methods from the state '
           'the constructor leaves. Termination by a signal other than an interrupt is not covered.',
    'F08': 'All acquisitions found by a table of opening functions of the standard library and by summaries of the functions of marcel '
           'that return what they opened. Double faults (a close that itself fails) are not covered.',
    'F09': 'All operators and the one position check; exact for the two declarations that marcel has. Which operators need input to be of any '
           'use is a table in the check.',
    'F10': 'All printed forms, all paths, with the attributes their constructors leave. Values supplied by the user are taken to be '
           'printable.',
    'F11': 'All producers started by operators, over all paths, for any interleaving: the argument is by the order of start, end-of-stream, join and '
           'return, which holds whatever the schedule. Trusts join/wait/communicate and pipes.',
    'N01': 'All functions that push or pop scopes, all paths including exceptional ones. One known finding (redirection).',
    'N02': 'All methods of the namespace and all uses of its inherited dictionary methods elsewhere.',
    'N03': 'All user-reachable methods that change variables, and all entry points that run commands. Changing a mutable value in place is '
           'not covered.',
    'N04': 'Agreement of what is written and read for every class that defines its saved form, and the dispatch between kinds of values. That '
           'dill itself restores what it wrote is trusted. One known finding (functions without source).',
    'N05': 'All paths of the function run in a job and of the receiver. When the changes become visible, relative to the end of a '
           'foreground command, is not decided.',
    'W01': 'Lock typestate on all paths of all workspace operations; the exclusion argument itself rests on rename being atomic and on the '
           'marker being renamed only by the rules checked. Process ids are taken not to be reused.',
    'W02': 'Order of effects on all paths of the functions that save. os.replace within a directory is taken to be atomic; durability after '
           'power loss (fsync) is not claimed.',
    'W03': 'Taint from operator arguments to the paths of workspaces, all paths of all path-building methods, and all file-system effects of the '
           'workspace module.',
    'W04': 'All layouts and all effects of their upgrades, as symbolic paths in order. What each released version stored is a table '
           'in the check, taken from the code of the upgrades at the pinned commit.',
    'J01': 'All operators; effects reached through the call graph. A pipeline variable whose own first operator is such an operator runs where '
           'its command runs; only the first operator of the command itself is judged.',
    'J03': 'All lock operations, all paths including exceptional ones. Deadlock by lock order is not at issue: no two locks are ever held together (checked by '
           'the reacquire rule for the locks there are).',
    'J04': 'All handlers that can catch a control request, on all their paths, with what their try block can raise computed over the call graph.',
    'J05': 'All functions that run a command and all loops that feed them, on all paths, with every call that parses or runs able to fail. Exceptions in code that '
           'prints, or that looks at the startup script between commands, are outside the rule; commands that wait for '
           'ever are too.',
    'G01': 'All functions. A name must be bound, an attribute of a module or of an object whose class is certain must exist, a call '
           'of a definition that is certain must fit it; what cannot be resolved with certainty (parameters, most results of library calls) is not judged.',
    'C01': 'All API functions, all paths, against the declared parsers.',
    'C02': 'All operator modules.',
    'C03': 'All help texts; options are recognised by their spelling in usage lines and marked-up text.',
}
for _p in PROPS:
    if _p['id'] in LEVEL:
        _p['level_note'] = LEVEL[_p['id']]
    assert _p['level_note'] or 'na' in _p, _p['id']
