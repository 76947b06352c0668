#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
CLAIMED = json.load(open(H + '/specs/claimed.json'))
NA = {
 'C03': 'Transpose is a counting sort whose array invariant (a stable inverse permutation over all rows) is not expressed yet; no contract, so nothing is claimed',
 'C04': 'row-wise merging through a marker with data-dependent output positions: no loop invariant has been found yet, so nothing is claimed',
 'C11': 'needs contracts for the LAPACK routines (dgeqp3, dorgqr, dgesvd, dsyevx, dgetrf): not written, so nothing is claimed; defects seen by reading are in DESIGN.md',
 'C17': 'the MINRES recurrence carries no residual vector that a loop invariant of this verifier could relate to x; contracts are not complete, so nothing is claimed',
 'C18': 'text formatting and parsing through iostreams: no contract of operator<< and operator>> within reach says which text they produce or accept',
 'C20': 'needs contracts for METIS and models of the graph containers; not written',
 'C21': 'needs contracts for UMFPACK; not written',
 'C19': 'option parsing is string formatting and parsing through std::stringstream and std::map<std::string,...>: no contract within reach of the verifier expresses what operator>> accepts, so nothing deductive could be decided beyond a test',
 'C22': 'the distributed module needs MPI and hypre, neither of which is installed: its sources cannot be parsed or compiled here, so no obligation can be generated from the real code',
}
m = dict(version=1, setup_cmd='python3-vt -c "import z3, sys; print(z3.get_version_string())" && clang++ --version && g++ --version', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                                technique='contract-based deductive verification: verification conditions generated from the clang AST of the real sources, discharged by z3; failed obligations replayed on the compiled code',
                                level='proof', level_note=CLAIMED[i]))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'contracts for this part are not built yet; nothing is claimed')))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
