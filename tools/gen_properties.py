#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

p('C01', 'Saving and restoring a bead reproduces every file',
  'After a workspace is saved, editing the bead (with --review) recreates every regular file of the code area and of output/ with the same relative path and the same bytes, the same kind and the same input references, and loading the bead as an input yields exactly the files of output/. Nothing from the workspace\'s own top level input/, temp/ or .bead-meta/ is carried over, and saving leaves the workspace itself unchanged. This holds for any file names, nesting, sizes, permissions, modification times, symlinks to files or directories, and any BEAD_ZIP_COMPRESSION setting.',
  ['inputs', 'configurations'], 'all workspaces built from a file-name/content/mtime/mode/link alphabet up to 3 files, times input sets, times compression settings',
  'Tests pack one workspace with three fixed ASCII files and look at the zip; no odd names, reserved look-alikes, block-size boundaries or old mtimes.',
  ['bead/workspace.py', 'bead/ziparchive.py', 'bead/tech/persistence.py', 'bead/tech/securehash.py', 'bead_cli/workspace.py'],
  [('pack', 'bead/workspace.py:_ZipCreator'), ('unpack', 'bead/ziparchive.py:extract_dir')],
  ['bead save', 'bead edit --review', 'bead input add'])

p('C02', 'The content id identifies the content and nothing else',
  'Two saved beads have the same content id exactly when they hold the same code files, the same output files, the same kind, freeze time, workspace name and input references. The id does not depend on where the workspace was, the order in which its files were created or are listed, file times and modes, compression settings, the box, the archive\'s file name, or repacking the archive\'s members in another order or compression.',
  ['inputs', 'configurations'], 'all pairs from an enumerated family of workspaces differing in one or two logical or incidental aspects',
  'One unit test compares two identical workspaces; no test checks that different content gets different ids or varies incidental aspects.',
  ['bead/workspace.py', 'bead/ziparchive.py', 'bead/tech/securehash.py', 'bead/tech/persistence.py'],
  [('manifest of hashes', 'bead/workspace.py:add_meta'), ('content_id', 'bead/ziparchive.py:calculate_content_id')],
  ['Bead.content_id in search results'])

p('C03', 'Damage to an archive never goes unnoticed',
  'If a saved archive is changed in any way (a flipped, cut or added byte, or a member added, removed, renamed, duplicated or replaced), then checking it either reports it as an invalid archive, or its code, output files and metadata are all unchanged, or its content id differs from the original one. The check itself never ends in any other error. `bead edit` and `bead input add` refuse an archive that fails the check as damaged and create or change nothing.',
  ['inputs', 'fault_sequences'], 'every single-bit flip and every truncation of small archives, every single member-level edit, and pairs of member-level edits',
  'Tests try one added file, one changed file and one deleted file.',
  ['bead/ziparchive.py', 'bead/tech/securehash.py', 'bead_cli/common.py', 'bead_cli/workspace.py', 'bead_cli/input.py'],
  [('validate', 'bead/ziparchive.py:validate'), ('verify_with_feedback', 'bead_cli/common.py')],
  ['ZipArchive.validate', 'bead edit', 'bead input add'])

p('C04', 'Unpacking stays inside its target directory',
  'Whatever member names and input names an archive contains, editing it, loading it as an input, or unloading/deleting its inputs afterwards never creates, changes or deletes anything outside the workspace directory involved, and never touches that workspace\'s parts that do not belong to the operation. An archive whose member names would escape is refused or its members are kept inside.',
  ['inputs'], 'all archives with one or two hostile member names or input names from an escape alphabet, in each section, listed or not in the manifest, followed by every input command',
  'No test uses a member name with .. or an absolute path.',
  ['bead/ziparchive.py', 'bead/workspace.py', 'bead_cli/input.py', 'bead_cli/workspace.py', 'bead/meta.py'],
  [('extract_dir', 'bead/ziparchive.py'), ('name checks', 'bead/meta.py:BeadName')],
  ['file system outside the workspace'])

p('C05', 'A save that fails leaves no archive behind',
  'If any file system operation fails while a workspace is being saved (disk full, I/O error, unreadable or vanishing source file, destination not creatable), the command reports failure and the box shows exactly the beads it had before; if the command reports success the complete bead is in the box directory. In both cases the previously stored archives and the workspace are unchanged.',
  ['fault_sequences'], 'every single failing (or from then on persistently failing) file operation of a save, for several workspaces and boxes with and without index',
  'No test injects an error; the cleanup path has no test at all.',
  ['bead/workspace.py', 'bead/box.py', 'bead_cli/workspace.py'],
  [('pack cleanup', 'bead/workspace.py:pack')], ['box directory', 'exit status'])

p('C06', 'An interrupted save is all or nothing',
  'If the process dies at any point while saving, then afterwards the box either shows the complete new bead or does not show it at all, never a partial or different bead under the new name; all older beads remain found and intact, and saving again works.',
  ['crash_points'], 'process death before every mutating file operation of a save and within every write (torn at several lengths), for workspaces including ones whose output is itself a bead archive',
  'No test interrupts a save.',
  ['bead/workspace.py', 'bead/box.py', 'bead/box_rawfs.py', 'bead/box_index.py'],
  [('pack', 'bead/workspace.py:pack'), ('archive recognition', 'bead/box_rawfs.py:_archives_from')], ['searches on the box'])

p('C07', 'Interrupted or failing commands never corrupt workspace metadata',
  'If an input command (add, update, load, unload, delete) is killed or hits a file system error at any point, the workspace is still a valid workspace whose kind and input references are readable and equal to either the state before the command or the state after it (for a command on several inputs: per input). `bead edit` and `bead new` that are killed leave either no valid workspace or one whose metadata is complete.',
  ['crash_points', 'fault_sequences'], 'process death or error at every file operation of each command, torn writes included, from several starting states',
  'No test interrupts a command.',
  ['bead/workspace.py', 'bead/tech/persistence.py', 'bead_cli/input.py', 'bead_cli/workspace.py'],
  [('meta setter', 'bead/workspace.py:meta')], ['.bead-meta/bead', 'bead status'])

p('C08', 'An input that counts as loaded is complete',
  'At any time, also after a command was killed or failed at any point, an input that the workspace reports as loaded contains exactly the output files of the bead version recorded for that input; otherwise it is reported as not loaded and `bead input load` completes it.',
  ['crash_points', 'fault_sequences'], 'process death or error at every file operation of add/update/load/unload/delete, torn writes included, followed by a recovery load',
  'Tests only look at inputs after undisturbed commands.',
  ['bead/workspace.py', 'bead_cli/input.py', 'bead/ziparchive.py'],
  [('load', 'bead/workspace.py:load'), ('unload', 'bead/workspace.py:unload')], ['input/ directory', 'bead status', 'bead input load'])

p('C09', 'The box registry survives interruption',
  'If `bead box add`, `bead box forget` or the implicit creation of the first box by `bead save` is killed or fails at any point, the list of known boxes is afterwards readable and is either the list before or the list after the command.',
  ['crash_points', 'fault_sequences'], 'process death or error at every file operation of each registry-changing command, torn writes included',
  'No test interrupts a registry change.',
  ['bead_cli/environment.py', 'bead_cli/box.py', 'bead_cli/workspace.py'],
  [('save', 'bead_cli/environment.py:save')], ['bead box list'])

p('C10', 'Input commands follow the documented state machine',
  'For every sequence of input add/update/load/unload/delete commands, the recorded input references, which inputs are loaded, and the loaded files are exactly what the documented meaning of the commands gives: add and update record and load the selected bead version in place of what was there, load fills in only missing inputs from the exact recorded content id, unload removes only data, delete removes data and reference. No command affects another input, the kind, or any file outside input/ and the metadata.',
  ['histories', 'configurations'], 'all command sequences over two inputs, two bead families and several versions (the full reachable state space), with boxes indexed or not and beads spread over one or two boxes',
  'Tests follow about twenty fixed sequences.',
  ['bead_cli/input.py', 'bead/workspace.py', 'bead/box.py'],
  [('commands', 'bead_cli/input.py'), ('load/unload/add_input/delete_input', 'bead/workspace.py')], ['workspace tree', 'metadata'])

p('C11', 'Loaded inputs and the input directory stay write protected',
  'After every command on a workspace, whether it succeeded or failed with an error, the input/ directory and every file and directory of every loaded input are not writable by their owner, and further commands by an unprivileged user still work on them.',
  ['histories', 'fault_sequences'], 'all sequences of workspace commands up to a depth as an unprivileged user, and every single failing file operation in each command',
  'One unit test loads one bead and tries to write one file.',
  ['bead/workspace.py', 'bead/tech/fs.py'],
  [('make_readonly', 'bead/tech/fs.py'), ('load/unload finally', 'bead/workspace.py')], ['permission bits under input/'])

p('C12', 'Search returns exactly the matching beads',
  'For any set of stored beads in one or several boxes and any combination of name, kind, content id and time conditions (exact, newer, older, at-or-newer, at-or-older, across time zones), searching returns every matching bead and nothing else, with its true metadata. unique keeps one bead per content id; newest/oldest, newer(n)/older(n) and first pick according to freeze time order (or any match, for first) and raise LookupError exactly when there is no such bead.',
  ['inputs', 'configurations'], 'all sets of up to 3 beads over small name/kind/time/content domains, distributed over up to 2 boxes (indexed or not), times all conjunctions of up to 2 conditions (3 in thorough), times all result selectors',
  'Tests search one box with three beads by name and time; no test combines conditions, boxes, or uses an index.',
  ['bead/box.py', 'bead/box_rawfs.py', 'bead/box_index.py', 'bead/box_query.py'],
  [('conditions', 'bead/box_rawfs.py:compile_conditions'), ('SQL', 'bead/box_index.py:build_where_clause'), ('selectors', 'bead/box.py:BaseSearch')], ['search results'])

p('C13', 'Indexing a box never changes what is found in it',
  'For a box holding any set of undamaged beads, under any archive file naming (valid Unicode) and in any directory, building the index changes neither the set of beads (name, kind, content id, freeze time, inputs) found by any search nor the archive each of them resolves to. Beads saved after the index was built are found just the same.',
  ['inputs', 'configurations'], 'all subsets of a family of beads and file names (special characters, with and without time stamp), in directories with special names, times all searches of one condition',
  'The index has no tests at all.',
  ['bead/box_index.py', 'bead/box_rawfs.py', 'bead/box.py', 'bead_cli/box.py'],
  [('index', 'bead/box_index.py:BoxIndex'), ('resolver choice', 'bead/box.py:_create_resolver')], ['search results', 'bead box index', 'bead box reindex'])

p('C14', 'Indexing converges to the directory content from any history',
  'After any sequence of saves, archives being copied in, renamed, deleted or damaged behind the tool\'s back, and index commands, running `bead box index` makes searches on the box find exactly the undamaged archives added and not removed since (in-place replacement of an already indexed file excepted), and `bead box reindex` makes them find exactly the undamaged archives present now, even if the index file was missing, outdated or corrupt. Running either again changes nothing.',
  ['histories'], 'breadth first over all sequences of save/copy/rename/delete/damage/replace/index/reindex/index-file-loss up to a depth with state merging',
  'The index has no tests at all.',
  ['bead/box_index.py', 'bead_cli/box.py'],
  [('sync', 'bead/box_index.py:sync'), ('rebuild', 'bead/box_index.py:rebuild')], ['search results after bead box index / reindex'])

p('C15', 'An interrupted index update is recoverable',
  'If the process dies at any point of `bead box index`, `bead box reindex` or of a save into an indexed box, the box afterwards still answers searches without error, never reports a bead that is not there or with wrong metadata, and one `bead box index` (or `bead box reindex`) brings back every undamaged archive in the directory.',
  ['crash_points'], 'process death before every mutating file operation (those of SQLite included) and inside every write, for each index-writing command on several boxes',
  'The index has no tests at all.',
  ['bead/box_index.py', 'bead/box.py', 'bead_cli/box.py'],
  [('one transaction per bead', 'bead/box_index.py:index_archive_file')], ['search results'])

p('C16', 'Concurrent commands on a shared box lose nothing',
  'When two bead processes work on the same indexed or unindexed box at the same time (saving, indexing, reindexing, searching), then under every interleaving of their file operations all of them complete successfully, no stored archive is lost or damaged, a search running alongside reports only complete beads with their true inputs and always those stored and indexed all along (unless a reindex is rebuilding the index), and when all have finished every stored bead is found.',
  ['schedules'], 'all interleavings of the file system calls (SQLite\'s included) of two processes up to a preemption bound, for each pair of save/index/reindex/search',
  'No test runs two processes.',
  ['bead/box.py', 'bead/box_index.py', 'bead/workspace.py'],
  [('SQLite transactions', 'bead/box_index.py'), ('order of read-index / list-directory', 'bead/box_index.py:sync')], ['search results', 'exit status'])

p('C17', 'Junk in a box never hides or blocks the good beads',
  'A box directory may contain any other files: non-zip data, empty, truncated or corrupted archives, zips that are not beads, beads with missing, malformed or unknown metadata, badly named archives, subdirectories or dangling links. Searching, resolving, loading and indexing still work without error and find all undamaged beads.',
  ['inputs', 'configurations'], 'every kind of junk file (and pairs of kinds) from an alphabet, including every truncation and single-byte corruption of a bead, next to good beads, times all searches and commands, boxes indexed or not',
  'One test adds a single text file without .zip extension.',
  ['bead/box_rawfs.py', 'bead/box_index.py', 'bead/ziparchive.py'],
  [('InvalidArchive handling', 'bead/box_rawfs.py:_archives_from')], ['search results', 'bead input load', 'bead edit'])

p('C18', 'A found bead resolves to its own archive or fails loudly',
  'Any bead returned by a search, resolved by the same or by a freshly started process, yields an archive in that bead\'s box with the same name and content id and with the files saved for that bead. If the archive meanwhile disappeared or was replaced by another, resolving raises an error instead of returning a different archive.',
  ['inputs', 'histories'], 'all sets of up to 3 beads with colliding names/contents/file names in up to 2 boxes, with an external rename/delete/replace between search and resolve, indexed or not',
  'Tests resolve only canonical file names right after saving, never with changes in between.',
  ['bead/box.py', 'bead/box_rawfs.py', 'bead/box_index.py'],
  [('resolve', 'bead/box.py:Box.resolve'), ('path lookup', 'bead/box_rawfs.py:get_file_path')], ['Box.resolve', 'bead.box.resolve'])

p('C19', 'Freeze times denote the true moment and keep the order of saves',
  'In every time zone (of whole minutes) and at every moment, including daylight saving changes, the freeze time given to a bead denotes the true moment of saving to the microsecond, parses back to that moment, and the file name and metadata carry it in full. Hence beads saved one after the other are ordered that way by freeze time, and a freshly saved bead is never rejected as coming from the future.',
  ['configurations', 'inputs'], 'all quarter hours (finer around transitions) of a year in a set of time zones covering every offset style, under a controlled clock',
  'Tests only parse fixed strings; the clock and the time zone are whatever the test machine has.',
  ['bead/tech/timestamp.py', 'bead/ziparchive.py', 'bead/box.py'],
  [('timestamp', 'bead/tech/timestamp.py:timestamp'), ('LocalTimezone', 'bead/tech/timestamp.py')], ['freeze_time', 'bead save', 'validate'])

p('C20', 'Time arguments mean what they say',
  'Every time given in one of the supported absolute forms (from a year alone to microseconds with offset) denotes exactly that instant, missing fields counting as the earliest; every sequence of signed amounts with units w, d, H, M, S denotes that offset from now; strict time stamps are accepted only in the full form. Anything else, including impossible dates and trailing text, is rejected with ValueError.',
  ['inputs'], 'the whole grammar over small field domains (every form, boundary and out-of-range values, all two- and three-term deltas) and all single-character edits of valid strings',
  'Tests check a dozen of fixed strings.',
  ['bead/tech/timestamp.py'], [('parsers', 'bead/tech/timestamp.py')], ['time_from_user', 'parse_iso8601', 'parse_timedelta', 'time_from_timestamp'])

p('C21', 'Version selection picks the right version',
  'Whatever versions exist in the known boxes, edit and input add with a name and optional --time take the newest version of that name frozen at or before that time; input update takes the newest of the same kind at or before the time; --next takes the oldest version of the kind newer than the current one and --prev the newest older one. If there is none, the command fails and changes nothing.',
  ['histories', 'configurations'], 'all sets of up to 3 versions over a small time line (equal instants in different zones, one microsecond apart), two names and two kinds, spread over up to 2 boxes, times all commands and time arguments',
  'Tests use one linear history of five versions in one box.',
  ['bead_cli/input.py', 'bead_cli/common.py', 'bead_cli/workspace.py', 'bead/box.py'],
  [('queries', 'bead_cli/input.py:CmdUpdate'), ('resolve_bead', 'bead_cli/common.py')], ['recorded input reference', 'edited workspace'])

p('C22', 'The web graph shows exactly the stored beads and their inputs',
  'The graph made from the boxes has one node for every distinct (name, content id) stored, plus one phantom node for each distinct input reference (name, content id) that no stored bead matches, and one edge per input reference leading from the referenced node to the referring bead, labelled with the input name. Saving a graph and loading it again gives the same graph, also after filtering and colouring.',
  ['inputs', 'configurations'], 'all graphs of up to 4 beads over 3 names with arbitrary input sets (missing, shared, self-named inputs), in one or two boxes with duplicates, indexed or not',
  'Tests use a few fixed graphs in a single box.',
  ['bead_cli/web/sketch.py', 'bead_cli/web/graph.py', 'bead_cli/web/dummy.py', 'bead_cli/web/io.py', 'bead_cli/web/commands.py'],
  [('from_beads', 'bead_cli/web/sketch.py'), ('generate_input_edges', 'bead_cli/web/graph.py')], ['bead web save', 'bead web load'])

p('C23', 'Freshness colours follow their definition',
  'After colouring, a bead is phantom iff it is only known as an input; otherwise it is superseded iff its name has a newer known version, up to date iff it is the newest and all its inputs are up to date, and out of date iff it is the newest but some input is not. The result depends only on the graph, not on the order of beads, and colouring again changes nothing.',
  ['inputs'], 'all acyclic graphs of up to 4 names with up to 2-3 versions and all input sets up to a size bound, with phantoms, in every order of beads for the small ones',
  'Tests check seven fixed graphs.',
  ['bead_cli/web/sketch.py', 'bead_cli/web/cluster.py', 'bead_cli/web/graph.py', 'bead_cli/web/freshness.py'],
  [('color_beads', 'bead_cli/web/sketch.py'), ('toposort', 'bead_cli/web/graph.py')], ['bead web color save'])

p('C24', 'Web filters keep exactly the connected computations',
  'Filtering by sources keeps of the connected names exactly those reachable from a source through input links between names, filtering by sinks exactly those leading to a sink, and filtering by both applies both; all versions of a kept name stay and only links to dropped names disappear from inputs. heads keeps exactly each name\'s newest stored version (newest known one if none is stored) and the direct inputs of those.',
  ['inputs'], 'all graphs of up to 4 names with up to 2 versions and bounded links, times all source and sink subsets including unknown names',
  'Tests check about five fixed filters on two fixed graphs.',
  ['bead_cli/web/sketch.py', 'bead_cli/web/graph.py', 'bead_cli/web/commands.py'],
  [('set_sources/set_sinks', 'bead_cli/web/sketch.py'), ('heads_of', 'bead_cli/web/sketch.py'), ('closure', 'bead_cli/web/graph.py')], ['bead web / .. / save', 'bead web heads save'])

p('C25', 'Discard removes the workspace and nothing else',
  'Discarding a workspace removes its directory completely, including read-only inputs, and changes nothing outside it, whatever symbolic links (to files, directories, parents or nowhere) and permissions it contains. Without --force a directory that is not a valid workspace is refused and left untouched.',
  ['inputs', 'configurations'], 'all small workspace trees over links/permissions/nesting alphabets, discarded from outside, from inside and through a link, by an unprivileged user',
  'Tests discard plain trees and never check what is outside.',
  ['bead_cli/workspace.py', 'bead/tech/fs.py', 'bead/workspace.py'],
  [('rmtree', 'bead/tech/fs.py')], ['file system outside the workspace'])

p('C26', 'The box registry is a consistent persistent list',
  'After any sequence of box add, box forget and saves without a box, the known boxes are exactly those added and not forgotten, in the order of adding, with unique names and unique directories; rejected commands change nothing; every later command sees the same list.',
  ['histories'], 'all command sequences over three names and three directories (absolute, relative, through links, missing, a file) up to the full reachable state space',
  'Tests check a few fixed sequences.',
  ['bead_cli/environment.py', 'bead_cli/box.py', 'bead_cli/workspace.py'],
  [('add_box/forget_box/save', 'bead_cli/environment.py')], ['bead box list', 'env.json'])

p('C27', 'Reuse of open archives is invisible',
  'Reading any number of archives in one process in any order, including reading from one while many others are opened, always gives each archive\'s own metadata, content id and files, never those of another archive, never an error about a closed file, and never keeps more than a small fixed number of archives open.',
  ['histories'], 'all access sequences over up to 4 archives up to a depth on a small cache and long periodic sequences over more archives than the real cache holds, with interleaved partial reads',
  'No test opens more archives than the cache holds.',
  ['bead/zipopener.py', 'bead/ziparchive.py'],
  [('LRU cache', 'bead/zipopener.py:OpenZipLRUCache')], ['archive reads', 'number of open file descriptors'])

p('C28', 'A saved bead is found under its workspace\'s name',
  'For any directory name a workspace may have, saving either succeeds and the bead is then found in searches by exactly that name (and not by any other name), can be edited and added as input by that name and gets a workspace of that name, or it is refused and leaves no file in the box. `bead new` accepts no name that save refuses (file name length limits aside).',
  ['inputs', 'configurations'], 'all names up to length 3 over an alphabet of special characters plus names resembling time stamps, in boxes with and without index, next to beads with similar names',
  'Tests only use plain identifiers as names.',
  ['bead/box.py', 'bead/box_rawfs.py', 'bead/ziparchive.py', 'bead/meta.py', 'bead_cli/workspace.py'],
  [('name from file name', 'bead/ziparchive.py:bead_name_from_file_path'), ('name pattern', 'bead/box_rawfs.py:_glob_bead_files')], ['bead new', 'bead save', 'bead edit', 'search by name'])

p('C29', 'Commands act on the innermost enclosing workspace',
  'Started anywhere inside a workspace, a command without explicit workspace acts on the innermost valid workspace containing the current directory; outside of any workspace it refuses and changes nothing. A directory is a valid workspace only if input, output and temp directories and the metadata file all exist.',
  ['inputs', 'configurations'], 'all nestings up to depth 3 of plain directories, workspaces and incomplete workspaces (each missing or wrong-typed part), from every directory in them, through links too',
  'Tests check three fixed positions.',
  ['bead/workspace.py', 'bead_cli/common.py'],
  [('for_current_working_directory', 'bead/workspace.py'), ('is_valid', 'bead/workspace.py')], ['bead status', 'bead save', 'bead input unload'])

p('C30', 'new and edit never overwrite anything',
  'new and edit create a workspace only where nothing exists; if the target exists as a file, a directory or a link to either, or the bead is missing or damaged they fail and change nothing. A newly created workspace has exactly the standard layout, no inputs, and a kind never used before; an edited one has the code of the chosen bead, its kind and inputs, nothing loaded and, unless reviewing, an empty output.',
  ['inputs', 'configurations'], 'all combinations of pre-existing target (none, file, empty/non-empty directory, workspace, live/dangling link) x bead state x options',
  'Tests check an existing directory only, and only the error message.',
  ['bead_cli/workspace.py', 'bead/workspace.py', 'bead/tech/identifier.py'],
  [('existence checks', 'bead_cli/workspace.py:CmdNew/CmdEdit')], ['file system', 'exit status'])

p('C31', 'A bad replacement never harms an input',
  'If the bead selected by input add, update or load is damaged, missing, or cannot be identified, the workspace (references, loaded data of that and all other inputs) stays exactly as it was and the problem is reported; the other inputs of an update-all or load-all are still processed.',
  ['inputs', 'configurations', 'histories'], 'all assignments of good/damaged/missing to the versions of two inputs x loaded states x commands, indexed or not, one or two boxes',
  'Tests check one damaged file for add and update.',
  ['bead_cli/input.py', 'bead_cli/common.py', 'bead/ziparchive.py'],
  [('verify before unload', 'bead_cli/input.py:_check_load_with_feedback')], ['workspace tree', 'stderr'])

p('C32', 'Stored archives are immutable and commands touch only their own area',
  'No command ever changes, renames or removes an archive in a box; only save adds one, exactly one per successful save, named after the workspace and the freeze time. Input commands never change code, output or temp of the workspace, save and status never change the workspace, and no command changes another workspace.',
  ['histories'], 'all command sequences over two workspaces and two boxes up to a depth, comparing complete file system snapshots around every command',
  'Tests look at the expected effect of a command, never at everything else.',
  ['bead/workspace.py', 'bead/box.py', 'bead_cli/workspace.py', 'bead_cli/input.py', 'bead_cli/box.py'],
  [('store', 'bead/box.py:Box.store')], ['file system snapshots'])

p('C33', 'Status tells the truth about the inputs',
  'status lists every input of the workspace exactly once with its freeze time, says loaded iff its data is loaded, names a bead with the recorded content id iff one is found in a known box and says missing otherwise, and lists exactly the boxes holding a bead of the same kind not newer than the recorded one, marking exact matches. With -v it also shows kind and content id, and it changes nothing.',
  ['histories', 'configurations'], 'all combinations of two inputs\' loaded states x which boxes hold exact/older/newer/renamed/no versions, indexed or not',
  'Tests look for a few substrings in three fixed situations.',
  ['bead_cli/workspace.py', 'bead/box.py', 'bead/workspace.py'],
  [('print_inputs', 'bead_cli/workspace.py')], ['bead status output'])

p('C34', 'The drawing contains exactly the graph',
  'The DOT drawing of a graph has one table per name with one row per version, newest first, coloured by its freshness, and for each input edge one labelled connection from the input\'s row to the bead\'s row; it is well-formed DOT for any bead and input names without control characters.',
  ['inputs'], 'all graphs of up to 3 names with up to 2 versions and bounded links, uncoloured, coloured and filtered, and all special characters in names',
  'One test checks that the file exists, another compares two drawings\' lengths.',
  ['bead_cli/web/graphviz.py', 'bead_cli/web/sketch.py', 'bead_cli/web/cluster.py'],
  [('as_dot', 'bead_cli/web/sketch.py:plot_clusters_as_dot'), ('escaping', 'bead_cli/web/graphviz.py')], ['bead web dot'])

p('C35', 'A web pipeline equals its steps run one by one',
  'Running several web sub-commands in one pipeline gives the same files as running them one at a time through saved graphs, in the given order, and intermediate saves do not influence later steps. A command line that can not be parsed completely is rejected before any of its steps has an effect.',
  ['programs'], 'all pipelines of up to 4 sub-commands over a few graphs, and all malformed variants of them',
  'Tests run four fixed pipelines and one malformed one.',
  ['bead_cli/web/commands.py', 'bead_cli/web/sketch.py'],
  [('parse_commands', 'bead_cli/web/commands.py'), ('pipeline loop', 'bead_cli/web/commands.py:CmdWeb.run')], ['files written by bead web'])

p('C36', 'Unavailable boxes do not block the others',
  'If the directory of a known box is missing, is not a directory, is not readable, is empty, or has an index that can not be opened, every command that looks for beads works with the remaining boxes as if that box were not known; saving into a box whose directory is missing, not a directory or not writable fails with an error and creates nothing.',
  ['configurations'], 'all assignments of state (ok, missing, file, unreadable, empty, indexed) to three boxes x all commands that search, as an unprivileged user',
  'Two tests use one deleted box.',
  ['bead/box.py', 'bead/box_rawfs.py', 'bead/box_index.py', 'bead_cli/input.py'],
  [('resolver choice', 'bead/box.py:_create_resolver'), ('store checks', 'bead/box.py:Box.store')], ['command results'])

p('C37', 'A bead saved while its files change is still undamaged',
  'Other programs may write, replace, rename or remove files of the workspace while it is being saved: either save fails and leaves nothing behind, or the saved bead is undamaged and can be used like any other. Files not touched meanwhile are saved exactly, files replaced at once are saved with their old or their new content, and changes outside of code and output never disturb a save.',
  ['schedules'], 'every point of the save x every kind of change of files and directories of the workspace; pairs of points and changes',
  'All tests save workspaces that nobody else uses.',
  ['bead/workspace.py', 'bead/tech/securehash.py'],
  [('archiving one file', 'bead/workspace.py:_ZipCreator.add_file'), ('listing directories', 'bead/workspace.py:_ZipCreator.add_directory')], ['stored archives', 'command results'])
p('C38', 'Archives may come, go and change while a command runs',
  'Other programs may add, remove, rename, replace or damage archives in a box while edit, input add, load and update, save, status, search, index or reindex runs. What the command leaves is complete and belongs to one bead that was stored at some moment - loaded inputs match their record -, or there is nothing; archives the command does not need never make it fail, and untouched beads are always found.',
  ['schedules'], 'every point of every command x every kind of change of every archive, with and without an index; pairs of points and changes',
  'All tests run one command at a time on boxes that nobody else uses.',
  ['bead/box.py', 'bead/box_rawfs.py', 'bead/box_index.py', 'bead/ziparchive.py', 'bead/workspace.py', 'bead_cli/input.py', 'bead_cli/workspace.py'],
  [('finding the archive', 'bead/box.py:Box.resolve'), ('unpacking after verification', 'bead/workspace.py:load'), ('index against directory', 'bead/box_index.py:sync')],
  ['workspace files', 'command results', 'search results'])
p('C39', 'Saving or looking at a workspace while its inputs change',
  'While one command changes the inputs of a workspace, save and status can run in it: they succeed, and show or store the references of inputs either as they were before or as they are after the change, with all of the code and output. The changing command does the same as without them.',
  ['schedules'], 'all interleavings, up to a number of preemptions, of save or status with every input command',
  'All tests run one command at a time.',
  ['bead/workspace.py', 'bead/tech/persistence.py', 'bead_cli/workspace.py', 'bead_cli/input.py'],
  [('replacing metadata', 'bead/tech/persistence.py:file_dump'), ('reading inputs', 'bead/workspace.py:inputs')], ['command results', 'stored archives', 'workspace files'])

p('C40', 'The spelling of a command does not change what it does',
  'A command has the same effect however it is spelled: options short or long, with = or a space, before or after the arguments; the workspace given by option in any form of path, or by starting in it; a bead given by name or by the path of that archive; a time in any equal form or as an offset from now; a new workspace or a box directory given by any form of path; aliases of commands and options; one box by name, by directory or as the only one; all inputs at once or one by one. A command line that is incomplete, or has an unknown, superfluous or contradicting part, is refused with a message and changes nothing.',
  ['inputs', 'programs'], 'every command x every combination of its spellings (quick: any two aspects varied), and all command lines a grammar marks as malformed',
  'Tests spell every command in one way; few options are ever given in their other forms, and almost no wrong command line is tried.',
  ['bead_cli/cmdparse.py', 'bead_cli/common.py', 'bead_cli/main.py', 'bead_cli/input.py', 'bead_cli/workspace.py', 'bead_cli/box.py'],
  [('arguments', 'bead_cli/common.py'), ('commands and aliases', 'bead_cli/main.py:make_argument_parser'), ('dispatch', 'bead_cli/cmdparse.py:Parser')],
  ['command results', 'workspace files', 'box directory', 'box registry'])
p('C41', 'Index commands work on exactly the designated boxes',
  'bead box index and reindex with --box, --dir, --all, or without option when there is only one box, give exactly the designated boxes an index that finds each undamaged archive of that directory and nothing else; they change neither archives nor any other file, directory, box or the box list. A designated box that can not be indexed is reported and does not stop the others; an unknown box, a missing directory or a missing choice between several boxes is refused, and nothing changes.',
  ['configurations', 'inputs'], 'all assignments of six states to up to three known boxes and an unknown directory x all designations x both commands',
  'Tests index one box, by one designation at a time, and do not look at the other boxes.',
  ['bead_cli/box.py', 'bead/box_index.py'],
  [('choosing boxes', 'bead_cli/box.py:CmdIndex'), ('choosing boxes', 'bead_cli/box.py:CmdReindex'), ('sync and rebuild', 'bead/box_index.py:BoxIndex')],
  ['box directories', 'search results'])
p('C42', 'Data stays shared with the released version',
  'Archives, workspaces, the box list, box indexes and saved graphs that the first version in this repository wrote are read and continued by the present tool, and the other way round: in any history of ordinary commands it makes no difference which of the two runs which command - the same files with the same content result, the same beads are found with the same metadata and content ids, and archives of one pass the check of the other.',
  ['histories', 'configurations'], 'all histories up to a depth over 26 operations, every command run by either version, from the same starting state made by either',
  'Tests only ever read what the same code has written; a consistent change of a format or of the hash passes all of them.',
  ['bead/workspace.py', 'bead/ziparchive.py', 'bead/meta.py', 'bead/layouts.py', 'bead/tech/securehash.py', 'bead/tech/persistence.py', 'bead/box_index.py', 'bead_cli/environment.py', 'bead_cli/web/io.py'],
  [('format of archives', 'bead/workspace.py:_ZipCreator'), ('content id', 'bead/ziparchive.py:calculate_content_id'), ('schema of the index', 'bead/box_index.py:create_schema'), ('format of graphs', 'bead_cli/web/io.py')],
  ['stored archives', 'search results', 'workspace files', 'command results'])

p('C43', 'A failing index update is reported and harms nothing',
  'If reading or writing the index, or listing the box directory, fails at any point of bead box index or reindex (disk full, I/O error, missing rights, too many open files), then either the command tells of the failure or the index is right, finding exactly the undamaged archives. In both cases the archives are unchanged, searches still work, find the beads indexed before (after index) and none that is not there, and one index or reindex without failure makes everything found. A save into the box then still stores its bead, or fails and stores nothing.',
  ['fault_sequences'], 'every file system call on the index and every listing of the directory x errno x once/persistent, during every index command from every box state of C15',
  'The faults are at chosen system calls inside of SQLite; tests see full disks or unreadable directories nowhere.',
  ['bead/box_index.py', 'bead/box.py', 'bead_cli/box.py'],
  [('updating the index', 'bead/box_index.py:BoxIndex.sync'), ('rebuilding', 'bead/box_index.py:BoxIndex.rebuild'), ('reporting', 'bead_cli/box.py:index')],
  ['command output', 'search results', 'box directory'])

p('C44', 'Ctrl-C at any moment is harmless, and the exit status tells the truth',
  'If a command is interrupted by Ctrl-C (SIGINT) at any moment, the bead program ends with a non-zero exit status, unless all of the command was done (then status 0, with the same effect and output as without the interruption). What is left is usable: archives are unchanged and at most the complete new one is added; the box list and the references of a workspace are the old or the new ones; an input that counts as loaded has all the files of its version; other files of the user are untouched (a workspace being discarded may be partly gone, a directory or file being created partly there); searches work and find only beads that are there, including all that were found before (but those in a box being indexed for the first time or again from scratch); and giving the same command again completes it, unless it was done already or the half created or discarded directory is in the way. Without interruption the exit status is 0 if the command did what it was told, and non-zero if it was refused with an error message on stderr, in which case nothing has changed.',
  ['crash_points', 'programs'], 'every command x an interrupt at every file system call and at every executed line of the code of bead; exit status of a fixed list of possible and impossible commands as real processes',
  'Tests never interrupt a command, and call the commands directly, not as the program that computes an exit status.',
  ['bead_cli/main.py', 'bead/workspace.py', 'bead/box_index.py', 'bead/tech/persistence.py', 'bead_cli/input.py', 'bead_cli/workspace.py', 'bead_cli/box.py'],
  [('exit status', 'bead_cli/main.py:main'), ('cleaning up', 'bead/workspace.py:load'), ('cleaning up', 'bead/workspace.py:pack'), ('transactions', 'bead/box_index.py')],
  ['exit status', 'workspace files', 'box directory', 'search results'])

p('C45', 'Output that can not be shown harms nothing',
  'If what a command prints can not be written (standard output or error closed, disk full, broken pipe, from the first or any later write on), the command ends either with exit status 0, and then all of it was done, or with a non-zero one. In the latter case what is left is usable: archives are unchanged and at most the complete new one is added; the box list and the references of a workspace are the old or the new ones; an input that counts as loaded has all the files of its version; other files of the user are untouched; searches find the beads that are there; and giving the same command again completes it, unless it was done already or a half created directory is in the way. Names and messages with characters that the encoding of the output lacks change neither the effect nor the exit status of a command, nor the files it writes, nor the rest of what it shows.',
  ['fault_sequences', 'configurations'], 'every command x stream (stdout, stderr, both) x the write from which it fails; closed, full and broken outputs of real processes, buffered or not; six encodings x every command with non-ASCII names; seven locales x every command',
  'Tests capture the output of commands in memory, where printing never fails and knows all characters.',
  ['bead_cli/main.py', 'bead_cli/box.py', 'bead_cli/input.py', 'bead_cli/workspace.py', 'bead_cli/web/commands.py', 'bead/tech/fs.py'],
  [('exit status', 'bead_cli/main.py:main'), ('reporting', 'bead_cli/box.py:index'), ('reporting', 'bead_cli/common.py'), ('progress', 'bead_cli/web/commands.py:load_all_beads')],
  ['exit status', 'workspace files', 'box directory', 'search results', 'command output'])

p('C46', 'The surroundings make no difference',
  'The effect of a command on files, its exit status, the beads found afterwards, and what it shows are the same whatever the order in which the operating system lists directories, the time zone of the computer, the hash seed of Python and the umask. (The order of lines, the offset in which the time of a new bead is written, which of several copies of the same archive is read, and under another umask the permissions may differ; versions with the very same freeze time have no order.)',
  ['configurations'], 'commands in three worlds (plain; non-ASCII names; duplicate, damaged and junk archives) x orders of directory listings, umasks, and time zones with hash seeds',
  'Tests run in one time zone, on one file system, with whatever order that lists files in.',
  ['bead/box_rawfs.py', 'bead/box_index.py', 'bead/box.py', 'bead/workspace.py', 'bead/tech/timestamp.py', 'bead_cli/web/sketch.py', 'bead_cli/workspace.py'],
  [('listing', 'bead/box_rawfs.py'), ('listing', 'bead/workspace.py:add_directory'), ('time arguments', 'bead/tech/timestamp.py'), ('versions', 'bead_cli/web/cluster.py')],
  ['command output', 'exit status', 'workspace files', 'box directory', 'search results'])

p('C47', 'Commands, help and completion work in any directory',
  'In whatever directory the tool is started (any name, also with characters that mean something to format strings, shells, patterns or option parsers, very long or not decodable; a workspace or not), commands on the workspace there do what they do in a plainly named one. The help of the program and of every command and group (-h, --help) is given at any terminal width, the same apart from that directory, with all the options and sub-commands that are known, and changes nothing; an incomplete command shows help, too, and is refused. Shell completion of any beginning of a command line proposes, besides files, exactly the known sub-commands and options that begin with what is typed (an option already given may be left out), without showing or changing anything.',
  ['inputs', 'programs'], 'directory names x (groups of) commands x forms of asking for help x terminal widths; five sequences of commands in workspaces of these names; completion of every prefix of every sub-command and option',
  'Tests run in temporary directories with harmless names and never ask for completion, and for the help of few commands.',
  ['bead_cli/cmdparse.py', 'bead_cli/main.py', 'bead_cli/common.py', 'bead_cli/workspace.py', 'bead/workspace.py'],
  [('help', 'bead_cli/cmdparse.py:Parser.arg'), ('completion', 'bead_cli/cmdparse.py:Parser.autocomplete'), ('default workspace', 'bead_cli/common.py')],
  ['command output', 'exit status', 'workspace files', 'completions'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
