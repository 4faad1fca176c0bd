#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/mkprops.py rewrites it)."""
import json, os
N = "capture/noworkflow/now/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [N + f for f in files],
         "mechanism": [{"name": m, "where": N + w} for m, w in mech],
         "observe_at": observe}
    if state:
        a["state"] = [{"name": s, "meaning": m, "where": N + w} for s, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("N01", "Capturing a run does not change what the program does",
     "A script run under capture prints the same output, writes the same files and ends the same way (normally, with the same uncaught exception, or with the same exit code) as the same script run by the plain interpreter. This holds for every construct of the language the script uses, for caught and uncaught exceptions, and for every capture option.",
     ["programs", "configurations"],
     "for all scripts built from assignments of every form, operators, control flow, functions, closures, classes, generators, comprehensions, exceptions, with blocks and file use, and for all depth, context, save-frequency and content-engine options",
     "The unit tests run hand-picked snippets through the transformer with a mocked store and inspect recorded rows; none compares the observable behaviour of a whole script with and without capture, and no finite list of snippets covers how constructs nest.",
     ["collection/prov_definition/transformer_stmt.py", "collection/prov_definition/transformer_expr.py", "collection/prov_execution/collector.py", "collection/prov_execution/execution.py"],
     [("source rewriting", "collection/prov_definition/transformer_stmt.py"), ("runtime collector callbacks", "collection/prov_execution/collector.py"), ("script execution", "collection/prov_execution/execution.py")],
     ["stdout/stderr of the script", "files it leaves", "recorded trial status"])

prop("N02", "Every run is recorded exactly once, with its true outcome",
     "Each run adds exactly one trial with the script, command, arguments and script content that were run; once the run is over the trial is marked finished exactly if the script ended normally or exited with a success code, and unfinished if it raised or exited with a failure code (any exit code a script may pass). A run that is killed before everything about it was stored is not marked finished, a killed run never damages trials recorded before, and the next run is recorded normally.",
     ["programs", "crash_points", "histories"],
     "for all ways a script can end (falling off the end, uncaught exception at any depth, exit with none, zero, non-zero, boolean or text code), all kill points during the run, and all histories of earlier runs",
     "Tests build trials by hand with a status already set; no test executes the run command, ends a script abnormally or kills a run.",
     ["cmd/cmd_run.py", "collection/prov_execution/execution.py", "persistence/models/trial.py", "collection/prov_execution/collector.py"],
     [("run sequence", "cmd/cmd_run.py"), ("outcome classification", "collection/prov_execution/execution.py"), ("status update", "persistence/models/trial.py")],
     ["trial rows", "argument rows", "content store"],
     [("trial status", "ongoing until the final store, then finished or unfinished", "persistence/models/trial.py")])

prop("N03", "The recorded call tree is the call tree that really happened",
     "For every call made by captured code, one activation is recorded, under the activation that made the call, in call order, with the called function's name, the values its parameters received and the value it returned; nothing else is recorded as a call. An activation's time interval lies inside its caller's, and siblings do not overlap.",
     ["programs"],
     "for all programs of nested and recursive calls, methods, closures, default/keyword/starred arguments, generators consumed in place, and exceptions that unwind any number of calls",
     "Tests check a few fixed snippets against fixed row numbers; recursion, unwinding and argument forms combine without bound.",
     ["collection/prov_execution/collector.py", "collection/prov_execution/structures.py", "persistence/models/activation.py"],
     [("activation stack", "collection/prov_execution/collector.py"), ("parameter matching", "collection/prov_execution/collector.py")],
     ["activation and evaluation rows"],
     [("activation stack", "innermost open call, its caller, and what to resume when it closes", "collection/prov_execution/collector.py")])

prop("N04", "A depth limit drops exactly the calls deeper than the limit",
     "With a depth limit, the recorded calls are exactly those of the unlimited run whose nesting depth is at most the limit, with the same callers, order, parameters and return values, and the values and dependencies recorded inside the kept calls are the same, except that a call whose body was dropped is recorded like a call of a built-in function: its result depends on its arguments. The script itself behaves the same for every limit.",
     ["programs", "configurations"],
     "for all programs and all depth limits from the script level to unlimited",
     "The tests never run with a depth limit.",
     ["collection/prov_execution/collector.py", "cmd/cmd_run.py"],
     [("inactive activations", "collection/prov_execution/collector.py")],
     ["activation, evaluation and dependency rows"])

prop("N05", "Intermediate saves never change what is finally recorded",
     "Whatever the save frequency, and wherever in the run the saves happen to fall, the provenance stored when the run ends is the same as if it had been saved once at the end: no row lost, duplicated, or left with a stale value. At any point during the run the rows already saved belong to the running trial and only refer to trials that exist.",
     ["schedules", "programs", "crash_points"],
     "for all programs, and all placements of intermediate saves among the collection steps",
     "Saves are triggered by the clock and tests always save once at the end on an in-memory store.",
     ["persistence/lightweight/base.py", "persistence/models/base.py", "collection/prov_execution/collector.py"],
     [("partial stores of complete objects", "persistence/lightweight/base.py"), ("save timer", "collection/prov_execution/collector.py")],
     ["all rows of the trial"],
     [("object store", "objects not yet saved for good; complete ones leave it when saved", "persistence/lightweight/base.py")])

prop("N06", "File accesses are recorded with the right content, mode and owner",
     "Every time captured code opens a file by name, one access is recorded, in order, with the name and mode used, the captured call in whose body the file was opened, the content the file had just before (or none if it did not exist), and the content it had when that call ended (or none if it no longer existed). The recorded contents can be read back from the store byte for byte.",
     ["programs", "histories"],
     "for all sequences of opening (by each opening function, mode and calling convention), writing, appending, truncating and deleting files, at any call depth, including failing opens",
     "Tests use a mocked content store and no real files.",
     ["collection/prov_execution/collector.py", "persistence/models/file_access.py", "persistence/content/safeopen.py"],
     [("wrapped open functions", "collection/prov_execution/collector.py"), ("close of activation", "collection/prov_execution/collector.py")],
     ["file access rows", "content store"])

prop("N07", "Recorded dependencies follow the data and control flow exactly",
     "Every evaluation of an expression, variable or parameter is recorded with its value and depends on precisely the evaluations it was computed from: operands, arguments, the function's returned value, the variable's latest assignment in scope, the container and index accessed and the element stored there, and the conditions and iterables of the statements that enclose it in the same call. Nothing else is recorded as a dependency.",
     ["programs"],
     "for all programs over variables, operators, nested calls, closures, parameters with defaults, branches, loops, containers with aliasing and exceptions",
     "Tests check single dependencies of fixed snippets by row number; influence is a closure over arbitrarily long programs with aliasing and scope.",
     ["collection/prov_execution/collector.py", "collection/prov_execution/structures.py"],
     [("dependency stack", "collection/prov_execution/collector.py"), ("variable lookup", "collection/prov_execution/collector.py")],
     ["dependency and evaluation rows"],
     [("context", "variable to latest evaluation, per scope", "collection/prov_execution/structures.py")])

prop("N08", "Recorded definitions match the source code",
     "For every script run, each function and class defined in it is recorded exactly once with its exact source text, docstring and enclosing definition, each code fragment is recorded with its exact text position, and the stored script content is byte-for-byte the script that was run.",
     ["programs", "inputs"],
     "for all source files, with nested and repeated definitions, decorators, docstrings, comments, non-ASCII text and any layout",
     "Tests use small ASCII snippets and fixed row numbers.",
     ["collection/prov_definition/definition.py", "collection/prov_definition/transformer_stmt.py", "persistence/models/code_block.py"],
     [("definition visitor", "collection/prov_definition/transformer_stmt.py"), ("code block creation", "collection/prov_definition/definition.py")],
     ["code block and code component rows", "content store"])

prop("N09", "Stored content can always be read back unchanged",
     "Whatever content is stored, under whatever name and with whatever engine, the returned hash retrieves exactly those bytes in that process and any later one; equal content gets an equal hash and different content a different one, and no later operation (storing, committing, listing, collecting garbage) makes it unreadable or different. A hash is found by any of its unambiguous prefixes, and listing reports exactly the contents stored.",
     ["histories", "inputs", "configurations"],
     "for all byte strings, names, engines and sequences of store, read, list, prefix search, commit, garbage collection and reopening",
     "Tests replace the content engine by a mock; no engine is exercised on disk.",
     ["persistence/content/plain_engine.py", "persistence/content/gitbase_engine.py", "persistence/content/pygit_engine.py", "persistence/content/dulwich_engine.py", "persistence/content_database.py"],
     [("put/get/listAll/find_subhash/commit/gc", "persistence/content_database.py")],
     ["content of the store directory through put/get of a fresh process"])

prop("N10", "Content storage survives concurrency and crashes",
     "With background storage, whatever the interleaving of storing, the workers and closing, all content stored before closing is readable once closing returns. If a process is killed at any point while storing, every content whose storing had completed stays readable, and storing the interrupted content again makes it readable, never wrong.",
     ["schedules", "crash_points", "fault_sequences"],
     "for all interleavings of writers, background workers and close, and all kill points within a store operation",
     "No test uses the parallel engines or interrupts a store.",
     ["persistence/content/parallel.py", "persistence/content/plain_engine.py", "persistence/content/pygit_engine.py", "persistence/content/dulwich_engine.py"],
     [("work queue and workers", "persistence/content/parallel.py"), ("file write", "persistence/content/plain_engine.py")],
     ["content read back by a fresh process"],
     [("queue", "contents accepted but not yet written", "persistence/content/parallel.py")])

prop("N11", "A trial's parent is the version it was derived from",
     "A new trial's parent is the trial the script was last restored to, if it was restored since its last run, and otherwise the latest trial of that script (none for its first run). Each script has at most one pending restored version, consumed by its next run, and recording or restoring one script never affects another script's ancestry.",
     ["histories"],
     "for all histories of runs, failed runs and restores of several scripts in one store",
     "Tests insert trials and heads directly and query one lookup at a time; ancestry is about sequences of real commands.",
     ["persistence/models/trial.py", "persistence/models/head.py", "cmd/cmd_run.py", "cmd/cmd_restore.py"],
     [("load_parent / create_head", "persistence/models/trial.py")],
     ["trial.parent and head rows after each command"],
     [("head", "per script, the restored trial", "persistence/models/head.py")])

prop("N12", "Automatic version tags follow the versioning rule and are unique",
     "Each trial gets one automatic tag major.minor.patch: rerunning the same code with the same command increments the patch of that version, the same code with a new command opens the next minor of that code's major, new code opens the next major, and a backup made by restoring is numbered X.0.0 in the next major. No two trials of one experiment ever get the same tag, and versions are compared as numbers.",
     ["histories"],
     "for all histories of runs with edited code, changed commands, reverted code, restores that create backups, and more than nine versions at each level",
     "Tests check a few hand-inserted tags.",
     ["persistence/models/tag.py", "persistence/models/trial.py", "cmd/cmd_restore.py"],
     [("create_automatic_tag", "persistence/models/tag.py")],
     ["tag rows after each command"])

prop("N13", "Restoring a trial brings its files back as recorded",
     "After restoring a trial, the script, every local module and every accessed file recorded for it has the content it had when that trial first used it, and files that did not exist then and were only created by it are absent; parts that were skipped on request, and all other files, are left untouched. Restoring again changes nothing.",
     ["histories", "configurations"],
     "for all histories of edits, deletions, runs and restores over scripts, modules and data files, and all combinations of skip options",
     "No test executes the restore command on files.",
     ["cmd/cmd_restore.py", "persistence/models/trial.py"],
     [("restore_trial", "cmd/cmd_restore.py"), ("versioned_files", "persistence/models/trial.py")],
     ["working directory files before and after each command"])

prop("N14", "Restoring never loses work that was not recorded",
     "If restoring would overwrite the script, a module or a data file with other content, and it differs from the version the workspace is based on, the current content is first recorded in a new backup trial, from which it can be restored, even if the restore is then interrupted. When nothing has changed no backup is made.",
     ["histories", "crash_points"],
     "for all histories of edits, runs and restores, and all kill points inside a restore",
     "No test executes the restore command on files.",
     ["cmd/cmd_restore.py"],
     [("find_differences / create_backup", "cmd/cmd_restore.py")],
     ["trials, content store and working directory after each command"])

prop("N15", "A single file can be restored at any recorded moment",
     "Restoring one file of a trial by access number, by time or by content hash writes exactly the content that access recorded, to the requested target, and changes no other file, head or trial; a request that matches nothing changes nothing.",
     ["histories", "inputs"],
     "for all recorded accesses of all files of all trials, all ways to name them, and all targets",
     "No test executes the restore command on files.",
     ["cmd/cmd_restore.py", "persistence/models/trial.py"],
     [("restore_file / find_file", "cmd/cmd_restore.py"), ("iterate_accesses", "persistence/models/trial.py")],
     ["target file content"])

prop("N16", "The modules a run used are recorded, or inherited when bypassed",
     "A run records every local module it imports once, with name, path, content and whether its code was captured under the chosen context; calls inside modules are captured exactly when the context covers them. A run that bypasses module collection reports the modules of the latest recorded run, backups apart, that did not bypass it.",
     ["histories", "programs", "configurations"],
     "for all module graphs (packages, nested, repeated and conditional imports), contexts, and histories mixing bypassed and full runs",
     "Tests insert module rows by hand.",
     ["collection/prov_deployment/deployment.py", "collection/prov_deployment/py3module.py", "persistence/models/trial.py"],
     [("import finder and loader", "collection/prov_deployment/py3module.py"), ("inheritance", "persistence/models/trial.py")],
     ["module rows, trial.modules, activation rows"])

prop("N17", "Exchanging trials loses nothing and converges",
     "After a push the server holds, and after a pull the client holds, every trial of the other side with all its recorded rows and every content they refer to unchanged, without altering or duplicating what was already there; repeating an exchange changes nothing, and repositories that have exchanged everything through a server hold the same trials. An exchange interrupted at any point can be repeated to completion.",
     ["histories", "fault_sequences"],
     "for all histories of runs, pushes and pulls among repositories and a server, and failures between the requests of an exchange",
     "No test pushes or pulls.",
     ["cmd/cmd_push.py", "cmd/cmd_pull.py", "utils/collab.py", "persistence/lightweight/bundle.py", "vis/views.py"],
     [("bundle export/import", "utils/collab.py"), ("file exchange", "cmd/cmd_push.py")],
     ["all rows and contents of all repositories after each exchange"])

prop("N18", "Experiments on a shared server are isolated",
     "Trials pushed to one experiment appear in that experiment's listings, downloads, history and version numbering and in no other's; requests naming an experiment that does not exist are refused and change nothing.",
     ["histories"],
     "for all histories of creating experiments and pushing and pulling through them by several clients",
     "No test exercises the server's experiment routes.",
     ["vis/views.py", "utils/collab.py", "persistence/models/trial.py", "persistence/models/tag.py"],
     [("experiment routes", "vis/views.py"), ("experiment filters", "persistence/models/trial.py")],
     ["HTTP responses and server rows"])

prop("N19", "A diff partitions what changed between two trials",
     "Comparing two trials classifies every module, environment attribute and file access of both: each item unique to the second is added, unique to the first removed, a module or attribute of the same name with different content replaced (with repeated names each item is replaced at most once), identical ones omitted, and none is classified twice; a file access is only added or removed, never replaced; changed trial attributes are exactly those that differ. Comparing a trial with itself yields nothing, and swapping the trials swaps added and removed.",
     ["inputs", "histories"],
     "for all pairs of recorded trials and all item sets, including repeated names",
     "Tests compare a few fixed pairs.",
     ["models/diff.py", "cmd/cmd_diff.py"],
     [("diff_dict / diff_set", "models/diff.py")],
     ["diff results and the diff command's output"])

prop("N20", "The history view shows every trial and its true ancestry",
     "The history of a store, filtered by script and status, contains exactly the matching trials, each linked to its nearest matching ancestor and to nothing else, in execution order; the summarised view groups exactly the trials of one version. The view reflects the current store at every request.",
     ["histories", "inputs"],
     "for all trial forests, filters, and interleavings of viewing and recording",
     "Tests check a handful of fixed small histories.",
     ["models/history.py", "models/graphs/history_graph.py", "vis/views.py", "cmd/cmd_history.py"],
     [("history graph", "models/graphs/history_graph.py")],
     ["history graph data, trials.json"])

prop("N21", "Trial graphs account for every call",
     "In every mode of the trial graph, each recorded activation belongs to exactly one node and each node's count and duration are those of its activations; parent links follow the caller relation, and the unsummarised tree is the call tree itself. The graph served from the cache equals the one computed afresh, including after the trial's data changes.",
     ["inputs", "histories"],
     "for all call trees and graph modes, cached or not",
     "Tests check fixed small trees.",
     ["models/graphs/trial_graph.py", "persistence/models/graph_cache.py"],
     [("summarization", "models/graphs/trial_graph.py"), ("graph cache", "persistence/models/graph_cache.py")],
     ["graph data"])

prop("N22", "Exported facts are exactly the stored provenance",
     "The exported Prolog facts of a trial contain one fact for every stored row of that trial and no other, with every field equal to the stored value under the documented quoting (text literals appear with their quotes stripped, line breaks escaped), whatever characters the values contain, and the text is well-formed. A trial that reused the modules of an earlier trial exports those modules. Hiding timestamps changes only timestamps.",
     ["inputs", "programs"],
     "for all recorded trials and all field values, including quotes, backslashes, newlines and empty or missing values",
     "Tests compare the text of a few fixed facts.",
     ["utils/prolog.py", "models/trial_prolog.py", "cmd/cmd_export.py"],
     [("Prolog descriptions", "utils/prolog.py")],
     ["output of the export command"])

prop("N23", "Shared groups, users, annotations and remotes behave as a consistent store",
     "Each accepted request to create an experiment, group, membership, annotation or remote is visible in every later listing exactly once with the data given, deletions remove that record and what belongs to it and nothing else, and refused requests change nothing. A remote used by an exchange is remembered, and hidden rather than forgotten when deleted.",
     ["histories"],
     "for all sequences of requests by several clients",
     "No test exercises these routes.",
     ["vis/views.py", "persistence/models/group.py", "persistence/models/memberOfGroup.py", "persistence/models/extendedAnnotation.py", "persistence/models/remote.py", "persistence/models/experiment.py"],
     [("REST routes", "vis/views.py")],
     ["HTTP responses and rows"])

prop("N24", "The provenance store is referentially closed after every command",
     "After any sequence of completed commands, every reference in the store resolves within its trial (callers, evaluations, code fragments, dependencies, members, modules, parents, inherited trials, heads, tags) and every recorded content hash is readable. Dependencies and containment never form a trial-crossing link, and the caller relation is a tree rooted at the script.",
     ["histories", "programs"],
     "for all programs recorded and all histories of runs, restores and exchanges",
     "Tests work on single tables of hand-made rows.",
     ["persistence/models/base.py", "persistence/lightweight/base.py", "collection/prov_execution/collector.py", "utils/collab.py"],
     [("bulk stores", "persistence/models/base.py")],
     ["all rows, content store"])

prop("N25", "A dataflow slice contains exactly what influenced the value",
     "The dataflow graph restricted to one evaluation contains exactly those nodes of the unrestricted graph that influenced it, through recorded dependencies and through the parts that its value, or an influencing value, had at that time, with exactly the arrows that the unrestricted graph has among them.",
     ["programs", "inputs"],
     "for all recorded trials and all evaluations in them",
     "Tests check the visualisation of a few fixed snippets.",
     ["models/dependency_graph/filters.py", "models/dependency_graph/clusterizer.py", "cmd/cmd_dataflow.py"],
     [("wasDerivedFrom filter", "models/dependency_graph/filters.py")],
     ["dot text of the dataflow command"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
