NA = {}
EXTRA = {
    'C25': dict(
        technique='TLA+ definition of well-formed plan documents; TLC judges what the real parser made of each document',
        note='Documents are generated plans and plans with one or two defects of about forty kinds put in. TLC '
             'evaluates the definition of well-formedness (spec/PlexilSyntax.tla) on each and compares with what '
             'the real executive did: loaded and able to run, or refused with an error and left able to load and run '
             'another plan. Not exhaustive over documents. Where documentation and schema are silent either answer '
             'is accepted.'),
    'C22': dict(
        technique='TLA+ contract of the threaded application; TLC checks recorded histories of the real threads under '
                  'controlled schedules against it',
        note='The real ExecApplication, worker thread included, runs on a scheduler of ours that switches threads at '
             'synchronisation calls and at accesses to shared memory of the sources concerned, and sees every thread '
             'that waits. Programs of up to six client threads (post, notify, wait, suspend, resume, add plans, stop) '
             'are generated; each is run under many random schedules, and TLC decides for each history whether '
             'spec/ExecApp.tla has a behaviour that shows it: deadlocks, missed wake-ups and waits released early '
             'included. Random rather than exhaustive over schedules; sequentially consistent.'),
    'C26': dict(
        technique='TLA+ specification of the executive; TLC validates traces of compiled programs against it',
        note='Plans are generated as for the other properties and written out as source text; the real compiler (built '
             'from the sources in compilers/plexil) and stylesheets translate them, the real executive runs them, and '
             'TLC judges the logs by the plan as generated. Programs with one defect must be refused. The stylesheets '
             'are run by an XSLT processor of our own. Not exhaustive over programs.'),
    'C27': dict(
        technique='TLA+ specification of the structured statements of the PLEXIL language; TLC validates traces of '
                  'compiled, translated and executed programs against it',
        note='spec/ExtPlexil.tla says what sequences, branches, loops, attempts, waits and synchronous commands do, '
             'without knowing the nodes they are translated to. Programs are generated, compiled by the real compiler, '
             'translated by the real stylesheets (on an XSLT processor of our own) and run by the real executive and '
             'application; TLC decides whether what was seen (assignments, commands, updates, aborts, outcomes, rest) '
             'is what the program says. Concurrent statements share no variables. Not exhaustive over programs.'),
}
