#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechs, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechs], observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
NT = "The only reliable tests cover a few fixed inputs of the sequence, command and env parsers; nothing here is exercised at all."

p('C01', 'Layered environment: lookup, override, isolation and deletion are exact',
  'Reading a key returns the value set in the nearest layer that has it, writing in one layer never changes what another layer stores, and dropping a layer restores exactly the values that were visible below it. Deleting a key makes it read as absent from the layer it is deleted in, and "delete down to layer X" removes it from every layer up to X and from no layer below. Clearing, cloning, merging, listing keys and flattening agree with these reads for every key.',
  ['inputs', 'histories'], 'all keys and values within the bound, all short histories of set/delete/layer/clear/merge operations on a stack of layers',
  NT + ' Layer interactions depend on histories of operations and on which layer happens to hold an equal value.',
  ['pkg/core/model/env.go', 'pkg/core/model/env_val.go'], [('Env.GetEx/Set/Delete/DeleteEx/Merge/FlattenAll', 'pkg/core/model/env.go')], ['Env methods'],
  [('Env', 'one layer: pairs, parent, type', 'pkg/core/model/env.go')])
p('C02', 'Saving an environment and loading it back reproduces every value',
  'Whatever values a user stores in the session environment and saves to the environment file are exactly the values found after loading that file in a later run; no key is lost, truncated, merged with another or invented. Saving what was loaded writes the same file again.',
  ['inputs'], 'every key and every value (any bytes, including separators, blanks, newlines, carriage returns and the deletion mark) up to the stated lengths, and sets of several keys',
  NT + ' Only particular bytes (separator, carriage return, newline, the deletion mark) at particular positions break a line format.',
  ['pkg/core/model/proto.go', 'pkg/mods/builtin/env.go', 'pkg/mods/builtin/env_snapshot.go'], [('EnvOutput/EnvInput/SaveEnvToFile/LoadEnvFromFile', 'pkg/core/model/proto.go')], ['the env file and the loaded Env'])
p('C03', 'Runtime-only keys are never written to the saved environment',
  'Saving the environment writes the user-visible session values and leaves out the keys that only describe the running process (session identity and paths, display size, command stack, interactive/breakpoint/event state, strings of the protocol). Every other session key is kept.',
  ['inputs'], 'every key within the bound that is built from, extends or is close to a filtered name or prefix',
  NT + ' Whether a key is filtered depends on exact-prefix details no fixed sample settles.',
  ['pkg/mods/builtin/env.go', 'pkg/core/model/env.go', 'pkg/mods/builtin/utils.go'], [('SaveEnvToLocal and key filtering', 'pkg/mods/builtin/env.go')], ['the env file'])
p('C04', 'A crash while saving leaves the old or the new file, never a mixture',
  'If the process stops at any point while the environment file, the hub repository list or the file of a saved flow is being saved, the next run reads either the complete previous content or the complete new content.',
  ['crash_points', 'inputs'], 'a stop before every file-system mutation and inside every write, for old and new contents within the bound',
  NT + ' No test stops a save half way.',
  ['pkg/core/model/proto.go', 'pkg/mods/persist/hub_meta/hub_meta.go', 'pkg/mods/persist/meta_file/meta_file.go'], [('write a .tmp file, then rename', 'pkg/core/model/proto.go')], ['content read after the crash'])
p('C05', 'Splitting a command line into commands loses nothing and respects quoting',
  'Splitting the argument list at the sequence separator yields exactly the commands the user wrote, in order: every non-separator character appears in exactly one command, an escaped or embedded separator (such as in a URL) does not split, and an empty command between separators stays an empty command and never merges or shifts its neighbours. A leading separator is reported, so that the first command is not taken as global settings.',
  ['inputs'], 'every list of arguments within the bound over an alphabet with separators, blanks and the characters around them',
  'The existing sequence tests fix a dozen command lines; the property quantifies over all positions of separators and blanks.',
  ['pkg/core/parser/sequence.go', 'pkg/core/parser/parser.go'], [('SequenceParser.Parse/Normalize', 'pkg/core/parser/sequence.go')], ['parsed sequence'])
p('C06', 'Any command line is parsed to a result or a reported error: no crash, no hang',
  'For every argument list, parsing terminates and either yields a flow or records a parse error on the offending command; it never panics with an internal (index, nil, slice) error and never loops forever.',
  ['inputs'], 'every argument list within the bound over an alphabet with all syntactically special characters, against a command tree with arguments, abbreviations and sub-commands',
  'The existing parser tests use well-formed lines; crashes need odd combinations of brackets, separators and blanks.',
  ['pkg/core/parser/cmd.go', 'pkg/core/parser/env.go', 'pkg/core/parser/parser.go'], [('Parser.Parse', 'pkg/core/parser/parser.go')], ['ParsedCmds'])
p('C07', 'Command arguments bind the same however they are written, and none is dropped',
  'Giving a command its arguments positionally, as name=value, as "name value" pairs, with abbreviated names, or inside brackets binds the same values to the same arguments. No argument text is silently dropped: each token ends in a binding or in a reported error.',
  ['inputs'], 'every value within the bound (including blanks and empty values where the form can express them) and every form, for commands with one to three arguments',
  'The existing env-parser tests check a few spellings each; equivalence quantifies over values and spellings together.',
  ['pkg/core/parser/env.go', 'pkg/core/parser/cmd.go', 'pkg/core/model/parsing.go'], [('EnvParser.TryParse, CmdParser.Parse', 'pkg/core/parser')], ['ParsedCmd environments'])
p('C08', 'A name or abbreviation resolves to exactly the command it was registered for',
  'After any sequence of command and abbreviation registrations, looking up a path by full names or by any mix of registered abbreviations yields exactly the command registered there, and unregistered names yield none. A registration that would make a name or abbreviation ambiguous is rejected and changes nothing, and a second command at a path that has one is rejected.',
  ['inputs', 'histories'], 'every sequence of registrations of names and abbreviations within the bound, in every order',
  NT + ' Ambiguity depends on the order of registrations.',
  ['pkg/core/model/cmds.go'], [('CmdTree.AddSub/AddAbbrs/GetSub', 'pkg/core/model/cmds.go')], ['CmdTree.GetSub'])
p('C09', 'Env key abbreviations expand to exactly the registered key',
  'An abbreviated dotted key expands, segment by segment, to the one full key it was registered for, full keys expand to themselves, and a name or abbreviation already taken is rejected and nothing changes.',
  ['inputs', 'histories'], 'every sequence of key and abbreviation registrations within the bound',
  NT, ['pkg/core/model/env_abbr.go'], [('EnvAbbrs', 'pkg/core/model/env_abbr.go')], ['EnvAbbrs.TryMatch'])
p('C10', 'A saved flow parses back to the same commands and arguments',
  'Saving a parsed command line as a flow and parsing the saved text again yields the same commands in the same order with the same priority marks, arguments and environment settings.',
  ['inputs', 'programs'], 'every command line within the bound, with argument and environment values containing blanks, quotes, separators and brackets',
  NT + ' Re-quoting fails only on particular characters in particular places.',
  ['pkg/core/model/flow.go', 'pkg/mods/builtin/flow.go', 'pkg/utils/misc.go'], [('SaveFlowToStr / FlowStrToStrs / QuoteStrIfHasSpace', 'pkg/core/model/flow.go')], ['re-parsed flow'])
p('C11', 'Flow and module meta files keep what is saved in them',
  'A value, section or flow saved in a flow/meta file is read back exactly, for every content the file format can hold; a line never swallows its neighbours and nothing is silently lost.',
  ['inputs'], 'every key, value and command line within the bound, including multi-line values, trailing separators, backslashes, quotes and blank lines',
  NT, ['pkg/mods/persist/meta_file/meta_file.go', 'pkg/mods/persist/flow_file/flow_file.go'], [('MetaFile.Save/parse', 'pkg/mods/persist/meta_file/meta_file.go')], ['values read back'])
p('C12', 'Reordering by priority and tail marks keeps every command exactly once',
  'Arranging a flow by its priority and tail marks executes every command the user wrote exactly once: the marked commands at the end of the line (a priority command, or one behind an empty command as in "a :: b") run before the others, the last one first, and the others keep their written order; separators left over at the end or the start change nothing. Only a command that accepts a call from the end of the line takes the one command before it as its input instead.',
  ['inputs', 'programs'], 'every flow within the bound with every combination of priority marks and command kinds',
  NT, ['pkg/core/execute/executor.go'], [('moveLastPriorityCmdToFront, checkTailMode', 'pkg/core/execute/executor.go')], ['executed commands'])
p('C13', 'Commands run in order, once each, and nothing runs after a failure',
  'The commands of a flow are executed in order and exactly once; when a command fails, no later command of the flow (or of the flows that called it) starts, and the failure is reported to the caller as it was raised, unless the failing command (or the flow around it) is marked to tolerate its error (%err=ok): then the run goes on with the next command. Sub-flows run in place under their callers, and afterwards, failed or not, the call stack is what it was before.',
  ['programs', 'fault_sequences'], 'every flow within the bound of built-in commands, flows and nested flows with any command failing',
  NT, ['pkg/core/execute/executor.go', 'pkg/core/model/cmd.go'], [('Executor.executeFlow/executeCmd, Cmd.Execute', 'pkg/core/execute/executor.go')], ['the record of executed commands'])
p('C14', 'Command-local environment never leaks, and command results do reach the session',
  'Arguments and settings given to one command are visible to that command (and to the sub-commands it runs) and to no other; values a command writes to the session are visible to the commands after it. Argument values, argument defaults and env mappings take precedence in the documented order: given arguments, then existing environment, then defaults.',
  ['inputs', 'programs'], 'every combination within the bound of given, inherited and default values, and of the layer they come from',
  NT, ['pkg/core/model/env_mapper.go', 'pkg/core/model/parsing.go', 'pkg/core/execute/executor.go', 'pkg/core/model/cmd.go'], [('ApplyMappingGenEnvAndArgv, GenEnv/GenCmdEnv', 'pkg/core/model')], ['environment seen by commands'])
p('C15', 'The env read/write check reports every read-before-write and nothing else',
  'Before execution, every key that a command of the flow must read and that neither the environment nor an earlier command provides is reported as fatal, a key provided only conditionally is reported as a risk, and a flow in which each read is provided is accepted.',
  ['inputs', 'programs'], 'every flow within the bound of commands with every combination of read, may-read, write and may-write declarations and of values already present',
  NT, ['pkg/core/model/env_ops.go'], [('EnvOpsChecker.OnCallCmd', 'pkg/core/model/env_ops.go')], ['EnvOpsCheckResult list'])
p('C16', 'Dependency collection covers every reachable command and terminates',
  'Collecting the OS-command dependencies of a flow lists every dependency declared by a command reachable through nested flows, with the commands that need it; flows that call themselves, directly or through each other, are reported as an error instead of running without end, and a flow with a missing dependency does not start.',
  ['programs'], 'every call graph within the bound of flows and commands, including cycles',
  NT, ['pkg/core/model/dep.go', 'pkg/core/model/forest.go'], [('CollectDepends', 'pkg/core/model/dep.go')], ['Depends'])
p('C17', 'Template rendering substitutes each reference exactly once and terminates',
  'Rendering a flow template replaces each [[key]] reference by the current value of that key, leaves all other text unchanged, reports unknown keys, and terminates for every template and every value.',
  ['inputs'], 'every template and every value within the bound over an alphabet with the bracket characters, including values that contain brackets themselves',
  NT, ['pkg/core/model/template.go'], [('renderTemplateStr', 'pkg/core/model/template.go')], ['rendered lines'])
p('C18', 'The session status file describes the run, also after a crash at any point',
  'The status file written while a flow executes parses back to the executed commands with their nesting, arguments, environment, results and logs; after a stop at any point the file still parses, shows every command that had finished with its result, and marks the interrupted one as not finished. Retrying from it skips exactly the commands that succeeded.',
  ['inputs', 'crash_points', 'programs'], 'every flow shape within the bound, values with special characters, and a cut at every byte of the file',
  NT, ['pkg/core/model/executing.go', 'pkg/core/model/executed.go'], [('ExecutingFlow / ParseExecutedFlow / GenExecMasks', 'pkg/core/model')], ['ExecutedFlow'])
p('C19', 'The hub repository list is read back as saved and paths map one to one',
  'Saving the list of hub repositories and reading it again yields the same repositories with the same addresses, paths, on/off state, reasons and help text (separators and line breaks in texts become blanks), also after the hub directory was moved; a list that cannot be saved is refused and leaves the saved one as it was, and a broken list file is an error that names it. Every spelling of a repository address (http, https, ssh, user, letter case) maps to the same local path, always inside the hub directory, and different repositories or branches map to different paths; an address that would leave the hub is refused.',
  ['inputs'], 'every address, reason, help text and state within the bound, including characters of the line format',
  NT, ['pkg/mods/persist/hub_meta/hub_meta.go', 'pkg/mods/persist/hub_meta/hub_repo.go'], [('WriteReposInfoFile/ReadReposInfoFile, GetRepoPath', 'pkg/mods/persist/hub_meta')], ['repo list'])
p('C26', 'Hub commands change only the repositories they name and delete only disabled ones',
  'Whatever sequence of hub commands (add a repository or local directory, enable, disable, purge, update) is run: every repository that was added stays in the list exactly once until it is purged; enabling, disabling and purging change only entries that match the given text; only directories of disabled git repositories that match are ever deleted, never a local directory, nor a directory that another listed repository uses.',
  ['inputs', 'histories'], 'every sequence of hub commands and every search text within the bound',
  NT, ['pkg/mods/builtin/hub.go', 'pkg/mods/persist/hub_meta/hub_meta.go', 'pkg/mods/persist/hub_meta/hub_repo.go'], [('purgeInactiveRepoFromHub, addRepoToHubAndLoadMods', 'pkg/mods/builtin/hub.go'), ('UpdateRepoAndSubRepos', 'pkg/mods/persist/hub_meta/hub_repo.go')], ['hub list file', 'directories on disk'])
p('C20', 'Background tasks are all waited for and never reported twice or wrongly',
  'Every background task started is tracked until it is reaped, exactly once; waiting for it returns only after it has finished and returns its own error, and removing or waiting for one task never affects another, whatever the interleaving of the tasks with the main flow. A program whose main flow did not fail with an error ends only after all of its background tasks, and ends well only if they did.',
  ['schedules', 'histories'], 'every interleaving within the context bound of the main flow with up to two background tasks, and every short history of add/finish/remove',
  NT, ['pkg/core/model/bg_tasks.go'], [('BgTasks, BgTask, BgStdout', 'pkg/core/model/bg_tasks.go')], ['BgTasks methods'])
p('C21', 'Flow blending replaces, removes, inserts and repeats exactly what was asked',
  'A blender that replaces, removes or inserts commands around a given command changes exactly the matching commands of the flow, in place and at most the requested number of times, and leaves the rest of the flow as it was.',
  ['inputs', 'programs'], 'every flow within the bound and every list of up to two blender operations with counts',
  NT, ['pkg/core/model/blender.go', 'pkg/mods/builtin/blender.go'], [('Blender', 'pkg/core/model/blender.go')], ['blended flow'])
p('C22', 'Values of sensitive keys are not displayed in clear',
  'The value of an env key or argument whose name holds a sensitive word (pwd, password, passphrase, secret, private, in any casing and position) is masked wherever keys are displayed with their values (environment listings, command help, flow descriptions, execution boxes, recorded sessions, env commands), however short or long the value is, unless display.sensitive is on; words of a switch (true, 1, on, no, ...) are shown, and so are the values of other keys. Text of command lines and flows is shown as typed.',
  ['inputs'], 'every key and value within the bound around the sensitive words, at each display',
  NT, ['pkg/core/model/env.go', 'pkg/cli/display/utils.go', 'pkg/cli/display/args.go', 'pkg/cli/display/env.go', 'pkg/cli/display/flow.go', 'pkg/cli/display/cmds.go'], [('IsSensitiveKeyVal', 'pkg/core/model/env.go'), ('mayMaskSensitiveVal', 'pkg/cli/display/utils.go'), ('DumpEffectedArgs', 'pkg/cli/display/args.go')], ['display output'])
p('C23', 'Joins run the command once for every combination of the listed values',
  'A join over several keys runs its command exactly once for each element of the Cartesian product of the listed values and ranges, with those values set (ranges include both ends, an empty value counts as not given); a run that fails makes the join fail, and malformed ranges are rejected with an error instead of looping, crashing or being taken for other values.',
  ['inputs'], 'every number of keys, list length, range bound and step within the bound',
  NT, ['pkg/mods/builtin/join.go'], [('join.kvs iteration', 'pkg/mods/builtin/join.go')], ['runs of the joined command'])
p('C24', 'Argument declarations stay unambiguous',
  'A command never ends with two arguments sharing a name or abbreviation: a conflicting declaration is rejected, names and abbreviations resolve to the declared argument, an argument sets at most one env key and a key is set by one argument, and defaults, order and enumerations are kept for each; a flow that takes over arguments of its commands (args.auto) gets each listed one once, from the first command that has it (with "*" every one that sets a key no command of the flow writes), and keeps its own.',
  ['inputs', 'histories'], 'every sequence of up to three argument declarations with abbreviations within the bound, in every order',
  NT, ['pkg/core/model/args.go', 'pkg/core/model/args_auto_map.go'], [('Args.AddArg', 'pkg/core/model/args.go')], ['Args'])
p('C25', 'Module meta files register exactly what they declare',
  'Registering a module from its meta file produces a command with the declared path, abbreviations, arguments, env reads/writes, dependencies and flags; an unreadable or malformed declaration is reported with the file name and never registers something else silently.',
  ['inputs'], 'every declaration value within the bound for each key of the meta format',
  NT, ['pkg/mods/persist/mod_meta/mod_reg.go', 'pkg/core/model/cmds.go'], [('RegMod', 'pkg/mods/persist/mod_meta/mod_reg.go')], ['registered Cmd'])
p('C27', 'Flow commands change only the flow they name and never lose one',
  'Saving, renaming, removing, clearing, moving saved flows or setting their help text changes exactly the flows named and leaves every other one as it was. A saved flow is a command with the same text and help in every later run until it is removed, renamed or moved; another flow is only overwritten after the user agreed (a confirmation or quiet-overwrite), the name of a command that is no saved flow is never taken, and a command that fails or is refused changes nothing.',
  ['inputs', 'histories'], 'every sequence of flow commands, answers and names within the bound',
  NT, ['pkg/mods/builtin/flow.go', 'pkg/mods/builtin/hub.go', 'pkg/mods/persist/flow_file/flow_file.go'], [('SaveFlow, RenameFlow, RemoveFlow, SetFlowHelpStr, RemoveAllFlows', 'pkg/mods/builtin/flow.go'), ('moveSavedFlowsToLocalDir', 'pkg/mods/builtin/hub.go')], ['flow files', 'commands of the next run'])
p('C28', 'Env commands change exactly the settings they name, and saved settings come back',
  'The commands that set, add, update, map, remove or reset settings change, in the current session, exactly the keys they name (removal also for the saved layer, as seen in this run; defaults stay) and are refused, changing nothing, where they say so (add of an existing key, update of a missing one, a failed assertion, an overwrite that is not allowed). Saving (env.save or a snapshot) keeps every setting that differs from the defaults with the value seen, also an empty one, and nothing that was not set - the arguments of the running commands are no settings. Loading a snapshot gives back what was saved (or only what is missing) and changes nothing else; each snapshot stays as saved until it is saved again or removed.',
  ['inputs', 'histories'], 'every env command with keys and values within the bound on every placement of the keys in the layers, and every short sequence of snapshot commands',
  NT, ['pkg/mods/builtin/env.go', 'pkg/mods/builtin/env_snapshot.go', 'pkg/core/model/proto.go', 'pkg/core/model/env.go'], [('SetEnvKeyValue, AddEnvKeyValue, ResetSessionEnv, ...', 'pkg/mods/builtin/env.go'), ('EnvSaveToSnapshot, EnvLoadFromSnapshot', 'pkg/mods/builtin/env_snapshot.go'), ('EnvOutput', 'pkg/core/model/proto.go')], ['layers of the environment', 'the next run'])
p('C29', 'The exit status and the exit hooks tell how a run ended',
  'The program exits with status zero exactly when its start, every command (a tolerated failure does not count) and every background command it waits for succeeded; a failure of whatever kind, also of an exit hook, ends in a non-zero status and a reported error, never in a crash of the program. After a run with a session the hook for its outcome (done or error) and then the one for the exit are run once each, behind the background commands; a command line with an unknown command runs none of its commands and fails.',
  ['inputs', 'programs', 'faults'], 'every command line of the whole program within the bound, every way its commands and hooks end',
  NT + ' It runs the program from its start to its exit.',
  ['pkg/ticat/ticat.go', 'pkg/core/execute/executor.go', 'pkg/mods/builtin/bg_tasks.go'], [('TiCat.run, exitEventHook', 'pkg/ticat/ticat.go'), ('Executor.Run', 'pkg/core/execute/executor.go')], ['os.Exit', 'return of RunCli'])
p('C30', 'No command line ends in an internal error',
  'Whatever is typed, the program either runs it or refuses it with an error of its own: no command line within the bound makes it end in a runtime error of the language (a nil dereference, an index out of range, a failed conversion), recurse without end, or hang; and no text of the user is taken as a format when a message is printed.',
  ['inputs'], 'every builtin command at each of eight places of a command line, every text within the bound at each of thirteen places, every short value for every arg of every builtin command',
  NT + ' A crash needs the one command, place and character that nobody tried.',
  ['pkg/ticat/ticat.go', 'pkg/core/execute/', 'pkg/cli/parser/', 'pkg/mods/builtin/', 'pkg/cli/display/'], [('TiCat.RunCli', 'pkg/ticat/ticat.go'), ('noSessionCmds', 'pkg/core/execute/cmd_type.go'), ('findSessions, normalizeSid', 'pkg/mods/builtin/sessions.go')], ['panics leaving RunCli', 'screen output'])
p('C31', 'Looking at a flow runs none of it, and shows what a run does',
  'A command that describes or searches (desc and its variants, -, --, +, ++, =, ==, cmd, cmds, find, /, ~, and so on) at the start or at the end of a command line runs none of the commands of the line, no program and no sub flow, and changes no file apart from session records. The description of a flow lists the commands that a run of the same line executes, at all depths, in the order of their execution and with the arg values they get (a repeated sub flow may be shown once; values that only a run knows are not promised).',
  ['inputs', 'programs'], 'every looking command at six kinds of places of lines with nested flows, programs, background commands and settings; every pair of flow calls, nested three deep, with templates, args mapped to settings and arg values within the bound',
  NT + ' The description walks the flow with code of its own, apart from the executor, and has to agree with it.',
  ['pkg/cli/display/flow.go', 'pkg/mods/builtin/dump_flow.go', 'pkg/mods/builtin/dump_cmds.go', 'pkg/core/execute/executor.go'], [('dumpFlow, dumpFlowCmd', 'pkg/cli/display/flow.go'), ('moveLastPriorityCmdToFront', 'pkg/core/execute/executor.go')], ['screen output', 'commands run', 'files'])
p('C32', 'Session commands work on exactly the sessions they are asked for, and never remove a running one unasked',
  'Removing sessions, by id, by keywords or all, removes exactly the sessions asked for: those that match every keyword, or have that id; a session whose process is still there (also one of another user) stays unless its removal is forced; what is no session in that directory is never touched. A new run removes only sessions that are over and older than the keeping time. Lists show exactly the sessions of the asked kind (failed, done, running, all) that match every keyword, in the order of their starts and with a limit the newest ones; the last session is the newest other one that ran a command; listing and describing change nothing.',
  ['inputs', 'histories'], 'every pair of entries of eight kinds (running, of another user, done, failed, not finished, expired, unreadable, no session at all), every keyword within the bound',
  NT + ' Which sessions may be removed depends on the processes that are there and on the time.',
  ['pkg/core/model/session.go', 'pkg/mods/builtin/sessions.go', 'pkg/utils/misc.go'], [('ListSessions, CleanSessions, CleanSession, SessionInit', 'pkg/core/model/session.go'), ('findSessions, getLastSession, FindAndRemoveSessions', 'pkg/mods/builtin/sessions.go'), ('IsPidRunning', 'pkg/utils/misc.go')], ['directory of the sessions', 'screen output'])
p('C33', 'A run pauses exactly at its break points, and a choice at a pause does what it says',
  'A run pauses before (after) exactly the commands with a break point before (after) them, wherever they are in nested flows, at a break command before the next command that is not quiet, and after the last command when asked for or when a break is the last; clearing break points leaves none. At a pause only the listed choices are accepted, anything else asks again: continue goes on to the next break point; step over runs the command with its whole sub flow and pauses before the next command (also if that is in the calling flow); skip does not run it and pauses before the next; step in runs it and pauses before the first command of its sub flow; quit ends the run with a failure, and nothing after it runs. A command with a sub flow and a file, when stepped through, pauses between them. Each line of the input answers one pause, and a run whose input ends at a pause fails instead of going on. Quiet commands and env definitions never pause and do not swallow a pause.',
  ['inputs', 'histories'], 'every set of break points, every sequence of choices and every line of nested flows within the bound',
  NT + ' What happens depends on every choice made before, over nested flows, and the choices come from the input.',
  ['pkg/core/execute/interactive.go', 'pkg/core/execute/executor.go', 'pkg/core/model/breakpoints.go', 'pkg/mods/builtin/dbg.go'], [('tryBreakBefore, tryBreakAfter, tryBreakAtEnd, tryBreakInsideFileNFlow, readUserBPAChoice', 'pkg/core/execute/interactive.go'), ('executeFlow, executeCmd', 'pkg/core/execute/executor.go'), ('BreakPoints', 'pkg/core/model/breakpoints.go'), ('DbgBreakBefore, DbgBreakAfter, DbgBreakAtEnd, DbgBreakClean', 'pkg/mods/builtin/dbg.go')], ['order of commands run and pauses', 'exit status'])
p('C34', 'A session is described as it was recorded',
  'Describing a session (the last one or one by id; brief, with changes, with everything, or as a monitor) shows every command the run recorded, in order and nested like it ran, each with its recorded result: succeeded, failed with each line of its error and the last lines of its log, or cut off (running while the process lives, failed otherwise), and with the values it started from and changed where asked for; the monitor shows exactly what failed or runs. A command that was not reached is shown as not run and none after it, one that is no longer the recorded command is shown as that and never with its result. This holds for a run of any shape and depth, with priority, quiet and empty commands, and for a record cut off at any line; the description changes nothing.',
  ['inputs', 'crash points'], 'every line of nested commands, every result, every cut of the record and every nesting depth within the bound',
  NT + ' What is shown depends on the whole history of the run, where it stopped, how deep it was and on the commands known now.',
  ['pkg/cli/display/flow.go', 'pkg/mods/builtin/sessions.go', 'pkg/core/model/executed.go', 'pkg/utils/misc.go'], [('DumpFlowEx, dumpFlow, dumpFlowCmd, dumpCmdDisplayName, dumpCmdExecutedLog, dumpExecutedModifiedEnv', 'pkg/cli/display/flow.go'), ('descSession, getLastSession', 'pkg/mods/builtin/sessions.go'), ('ParseExecutedFlow, ExecutedFlow.GetCmd', 'pkg/core/model/executed.go'), ('ReadLogFileLastLines', 'pkg/utils/misc.go')], ['printed description'])
p('C35', 'The progress display shows where a run is',
  'While a flow runs, a frame is shown right before each command that is not quiet, and it tells exactly where the run is: the flows the command is in, outermost first; the commands of its own flow in order, without quiet ones and env definitions, with the arguments given to them; the command about to run, and no other, is marked, flows before it are shown as done and later ones as not begun. When the flow has more commands than display.max-cmd-cnt (at least four), as many entries as that are shown around the marked command, which is always among them, with dots exactly where commands are left out. A single command on the command line has no frame unless asked for; a command in a flow always has one. When asked for, each command with a frame is followed by its result after it and its sub flow ran: succeeded or failed, with its own name, also for each of the flows around a failed command. Nothing is shown when the display is off, and quiet commands are shown when asked for. The display changes nothing about what runs.',
  ['inputs', 'histories'], 'every line of nested commands, every size of the shown part, every failing command and every combination of the settings within the bound',
  NT + ' What a frame shows depends on the position in each of the nested flows, the quiet commands before it and the size of the window.',
  ['pkg/cli/display/executor.go', 'pkg/cli/display/render.go', 'pkg/core/execute/executor.go'], [('PrintCmdStack, PrintCmdResult, filterQuietCmds, checkPrintFilter', 'pkg/cli/display/executor.go'), ('RenderCmdStack, RenderCmdResult', 'pkg/cli/display/render.go'), ('executeCmd', 'pkg/core/execute/executor.go')], ['screen output', 'order of commands run', 'exit status'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
