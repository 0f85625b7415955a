"""Writes known_findings.txt: what was found wrong with the code and repaired (or not)."""
import subprocess
PROP = [  # (start of the subject, properties)
 ('accept array variables as operands', 'C17'), ('accept an array variable as the initial', 'C25'),
 ('XOR of three', 'C16'), ('OR of three', 'C16'), ('report the restored value', 'C06'),
 ('notify listeners when an array element', 'C17'), ('assign and restore the array element', 'C05'),
 ('a lookup follows its arguments', 'C14'), ('string length and array size', 'C16'),
 ('compare dates and durations', 'C18'), ('delete no child until', 'C23'),
 ('a node leaving the pending queue', 'C07'), ('do not follow a node into another', 'C07'),
 ('consider a pending node again', 'C04'), ('release the mutexes of a', 'C08'),
 ('activate the exit condition of a command', 'C09'), ('check a node waiting for a resource', 'C07'),
 ('heed an abort acknowledgement', 'C11'), ('forget the command handle', 'C18'),
 ('accept a Real tolerance', 'C15'), ('an Integer valued change lookup reports', 'C15'),
 ('a change lookup has no thresholds', 'C15'), ('tell the interface the new thresholds', 'C15'),
 ('notify listeners when a change lookup', 'C15'), ('clear the thresholds', 'C15'),
 ('leave no node of a deleted plan', 'C23'), ('do not report all plans finished', 'C23'),
 ('refuse a plan which assigns', 'C25'), ('accept a default initial value for an InOut', 'C20'),
 ('an element of an array can be passed', 'C20'), ('a resource named in a command', 'C12'),
 ('a pending node may be notified', 'C07'), ('a node does not repeat once', 'C03'),
  ('give back the resources of a command', 'C12'),
 ('unknown elements of arrays', 'C17'),
 ('refuse a child node with', 'C25'), ('check the body elements', 'C25'), ('refuse library nodes which call', 'C25'),
 ('check the expressions of library node al', 'C25'), ('check the argument count of a Command', 'C25'),
 ('detect duplicate ResourceUpper', 'C25'), ('check operand types when', 'C25'), ('compare a string with', 'C25'),
 ('delete the plan when finalizing', 'C25'), ('refuse extraneous elements in Decl', 'C25'),
 ('report initial values of the wrong', 'C25'), ('ignore the tolerance of a lookup', 'C15'),
 ('report a command whose name is unknown', 'C10'), ('compare values declared to be of type Array', 'C16'),
 ('report a scalar initial value of an array', 'C25'), ('refuse variable declarations in place', 'C25'),
 ('accept all of the command handle values', 'C25'),
 ('notifyAndWaitForCompletion()', 'C22'), ('waitForPlanFinished()', 'C22'), ("the worker thread's first cycle", 'C22'),
 ('an application running opport', 'C22'),
 ('strip whitespace before', 'C24'), ('GeneralExprVec::rem', 'C14'),
 ('integer literals in other bases', 'C26'), ('the value of a command whose name', 'C26'),
 ('a lookup tolerance can be', 'C26'), ('the default value of a scalar library', 'C26'),
 ('an if whose branch has a Skip', 'C27'), ('a Try with a Post', 'C27'), ('several branches of an if', 'C27'),
 ('an if tests its condition once', 'C27'), ('a do loop whose body is a loop', 'C27'),
 ('a synchronous command may assign', 'C27'), ('the conditions of a while loop are', 'C27'),
 ('an exit condition does not take', 'C27'), ('a for loop may look', 'C27'),
 ('dropping 0.0 +', 'C26'), ('arithmetic on a Real and', 'C26'),
]
PROP += eval(open('/verif/tools/moreprops.txt').read()) if __import__('os').path.exists('/verif/tools/moreprops.txt') else []
out = ['# Genuine defects of plexil-group/plexil found by these checks.',
       '#   fixed: property=<id> <commit> <what failed>          repaired; the checks must stay quiet',
       '#   finding: property=<id> key=<key> <what fails>        not repaired; reported as KNOWN-FINDING', '']
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
for line in log.splitlines():
    h, sub = line.split(None, 1)
    if not sub.startswith('fix: '):
        continue
    sub = sub[5:]
    ps = [p for s, p in PROP if sub.startswith(s)]
    assert len(ps) == 1, sub
    out.append('fixed: property=%s %s %s' % (ps[0], h, sub))
import os
f = '/verif/tools/findings.txt'
if os.path.exists(f):
    out += [''] + [l.rstrip() for l in open(f)]
open('/verif/known_findings.txt', 'w').write('\n'.join(out) + '\n')
