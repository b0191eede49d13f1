# id: (oracle, why it reaches what tests cannot, cost)
MORE = {
'C01': ('the workspace as it was made: relative paths and bytes of every regular file, reference list, kind; snapshot of the workspace before and after.',
        'tests save one text file; here every sort of name, time, mode, link, size, nesting and every pair of them, times compression.', '23 s.'),
'C02': ('equality of the described content (files, kind, time, name, inputs) computed by the check itself, over all pairs.',
        'both directions over the product of a content alphabet with all irrelevant variations (listing order is forced by the seam).', '3 s, thorough 12 s.'),
'C03': ('own comparison of members and content id with the original; any exception other than the documented one is a violation.',
        'every bit, every cut, every member edit - a test damages one byte.', '10 s, thorough 144 s.'),
'C04': ('complete snapshots of everything around the workspace, which is surrounded by victims on every level and at absolute paths.',
        'the tests have no hostile archive at all. Containment is not trusted: executions run as an unprivileged user below scratch.', '14 s, thorough 120 s.'),
'C05': ('box directory, listing by a fresh process, workspace, exit code and message before/after.',
        'one execution per (system call, errno, persistence): faults can not be produced by tests.', '13 s, thorough 52 s.'),
'C06': ('a fresh process lists and reads the box: all or nothing, then saves again.', 'one execution per crash point/torn write.', '5 s, thorough 10 s.'),
'C07': ('metadata read by the real code equals the one before or after; expectations of the effect of each command come from an independent table (EFFECTS).',
        'every crash point, torn write and failing call of every input command, new and edit.', '14 s, thorough 113 s.'),
'C08': ('files of the recorded version, from the archive that was forged; completeness after `input load`.', 'as C07, also on the leftovers of earlier crashes.', '25 s, thorough 440 s.'),
'C09': ('list before / list after; then the list must be changeable.', 'as C07 for the registry.', '7 s.'),
'C10': ('reference machine of the documented commands over (references, loaded versions).', 'the closed state space: every command in every reachable state (143 states x 31 commands), where tests follow a dozen paths.', '16 s, thorough 110 s.'),
'C11': ('modes of every file and directory below input/, and whether later commands succeed, as an unprivileged user.', 'all states of C10 and all failing calls.', '14-20 s.'),
'C12': ('brute force evaluation of conditions over the list of forged beads.', 'all subsets of a pool x all conjunctions of conditions x selectors, in raw, indexed and mixed boxes.', '25 s.'),
'C13': ('the same box without index.', 'naming and directory alphabets in all pairs; the two implementations of search (sqlite, directory) against each other and the files.', '10 s.'),
'C14': ('the set of undamaged archives in the directory, by content.', 'fixed point of (directory, index) under all changes from any history.', '16 s.'),
'C15': ('archives in the directory; answers right after the crash may only name them.', 'crash points inside sqlite commits (journal, pages), which no test can reach.', '21 s.'),
'C16': ('all commands succeed, archives intact, searches alongside report complete beads, final listing complete.', 'all schedules up to a preemption bound of real processes, sqlite locks included.', '31 s.'),
'C17': ('the listing without the junk.', 'catalogue of hundreds of junk files from every cut and every malformed field, alone and together, raw and indexed.', '35 s.'),
'C18': ('content of every bead, known to the check.', 'all histories of changes between search and resolution, in three sorts of process.', '10 s.'),
'C19': ('the virtual clock, in integer microseconds.', 'every offset change of every time zone; a real process per zone.', '16 s.'),
'C20': ('a parser written from the documented forms.', 'boundary products, all short strings, all one character edits.', '7 s, thorough 29 s.'),
'C21': ('selection by the definition, over integer times.', 'every set of versions x every command x every boundary time.', '29 s.'),
'C22': ('reference graph on sets (`webref.py`).', 'all small webs x distributions over boxes.', '12-20 s, thorough 270 s.'),
'C23': ('greatest fixpoint of the definition on sets.', 'all webs up to a size in all orders of beads.', '9 s, thorough 600 s.'),
'C24': ('set comprehensions over reachability.', 'all webs x all source/sink sets.', '8 s, thorough 435 s.'),
'C25': ('snapshot of everything around.', 'all odd entries at all places, as unprivileged user.', '16 s.'),
'C26': ('reference list.', 'fixed point of registry states under all commands.', '33 s.'),
'C27': ('facts of the forged archives; count of open descriptors.', 'all access histories around the cache size up to a depth.', '30 s.'),
'C28': ('presence under exactly the name, among similar names.', 'all short names over special characters.', '20 s.'),
'C29': ('the definition of innermost valid workspace; effects equal those with explicit -w.', 'all nestings of (partly broken) workspaces.', '25 s.'),
'C30': ('complete trees before/after; layout of the result.', 'full product of target, spelling, bead state, options.', '24 s.'),
'C31': ('per input: unchanged, or exactly the selected good version; report demanded.', 'all assignments of damage to versions.', '20 s.'),
'C32': ('the area each command may change, on complete snapshots (contents and modes).', 'all command sequences to a depth.', '16-35 s.'),
'C33': ('reference over the recorded references, box contents and loaded states; the printed text is parsed.', 'all distributions of versions over boxes.', '25 s.'),
'C34': ('GraphViz reads the drawing back; compared with the reference graph.', 'all small webs, all short special names.', '6 s, thorough 152 s.'),
'C35': ('step by step execution; own parser and interpreter of the sub-command language.', 'all pipelines and all word sequences up to a length.', '30 s, thorough 350 s.'),
'C36': ('the same command with the unavailable boxes forgotten.', 'all states of three boxes x all commands, unprivileged.', '10 s.'),
'C37': ('own reading of the archive: every member against the manifest; contents each file can have had.', 'all points of the save x all changes (pairs in thorough), by stopping the real process before each operation.', '5 s.'),
'C38': ('beads that were stored at some moment; inputs against their records; listing against the directory.', 'all points of every command x all changes of every archive (pairs in thorough).', '36 s.'),
'C39': ('the states of the records before and after; the workspace the changing command leaves alone.', 'all interleavings with at most one (thorough two) preemptions.', '9 s.'),
'C40': ('the plainest spelling of the same command, complete trees compared; a grammar of the command lines written for the check.', 'all combinations of spellings; every derived malformed line.', '75 s with 8 workers.'),
'C41': ('the beads known to be in each directory; snapshots of everything else.', 'all states of up to three boxes x all designations.', '35 s.'),
'C42': ('the first version of the tool, frozen in ref/base, runs the same command on the same data.', 'all histories to depth 3 (thorough 4), each command by either version.', '60 s.'),
'C43': ('what the same command says without fault, and the archives in the directory.', 'one fault per run (once or from there on); thorough: five errnos.', '60 s.'),
'C44': ('the state before, and the state and output after the same command without interruption.', 'one interrupt per run; quick: first and last execution of a line, eight commands by line, all 27 by call.', '95 s.'),
'C45': ('the state before, and the state after the same command with all output shown; for encodings, the output and state with UTF-8.', '27 commands at every write (quick: EPIPE), 324 processes, 40 commands x 5 encodings.', '55 s.'),
'C46': ('the same command in the plain surroundings.', 'quick: 12 listing orders, 8 time zones with a hash seed each, 4 umasks, 78 commands in two worlds; thorough: 48 orders, 32 hash seeds, three worlds.', '40 s.'),
'C47': ('the same command in a plainly named directory; the help texts against a table of the known options and sub-commands; completion against these.', 'quick: 56 names, 47 requests for help, 15 terminal widths in three directories, 870 completions; thorough: widths and completions in all directories.', '50 s.'),
}
