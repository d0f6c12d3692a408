#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run this file to regenerate it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
VF = 'gated value-flow analysis (global value numbering) of the resolved AST against a reference'
TRUST = ('Trusts the clang front end, the library models of vfa/models.py and real-number semantics of double; an obligation the '
         'analysis cannot settle is printed and recorded as undecided, never as a violation.')
PYN = 'The Python syntax tree is interpreted over symbolic numbers; the binding is a recorder built from PYBIND11_MODULE. '
N = {
 'K01': 'Every pose query is proved equal to the composed chain for the listed tree shapes and cache states, with all transforms, angles, ids and the base symbolic. ',
 'K02': 'Every operation is proved equal to its algebraic definition for all real inputs (unit rotations). ',
 'K03': 'Conversions are proved equal to the rotation-matrix definitions on every path, including the gimbal branches. ',
 'K04': 'Joint motion is proved equal to its definition for every joint type, including the raising of an error for the others. ',
 'K05': 'Robots of the enumerated shapes are constructed, asked, changed and asked again inside the evaluator; every answer is proved equal to that of a model that was never asked before, for all numbers in the description and both configurations. ',
 'K07': 'For every query, the whole observable model and every later answer is proved equal to those of a model that was not asked. ',
 'K10': 'Relevance of every joint to every link (also added ones and COM frames) is proved to be ancestry for the enumerated tree shapes. ',
 'K14': 'Pose, id, name, parent of added links and atomic refusal of taken names are proved for the enumerated robots, every parent, all poses symbolic. ',
 'K16': 'The real constructor is evaluated on enumerated robots with symbolic numbers (and on refused inputs) and its result compared with the description. ',
 'K18': ('definedness analysis (null, element, iterator and matrix bounds) on the same value-flow graph', 'Every access of the listed operation sequences on enumerated robots, with up to 3 (thorough: 6) added links, is proved in range and non-null. '),
 'K06': 'Container laws are proved for all indices, sizes and stored values. ',
 'K08': 'Joint columns are proved equal to the geometric derivative for every joint list, link, joint type and rotation representation; the derivative formulas themselves are reduced to the rate definitions. ',
 'K09': 'Shape and base columns are proved for every joint list and representation; the base rotation columns as the forward difference quotient of the rigidly attached link, refuted against the analytic derivative. ',
 'K11': 'Center of mass and its Jacobian are proved equal to the weighted sums for any number of links. ',
 'K12': 'Total inertia is proved equal to the parallel-axis sum for any number of links. ',
 'K13': 'Lookup and listing are proved equal to the map and list definitions, with their failure conditions, for any list length. ',
 'K15': 'Limits are proved equal to the model data for any joint list, with absent limits reported as infinite. ',
 'U01': 'Acceptance of a joint element is proved equal to the stated condition for every combination of present, absent and malformed attributes and children. ',
 'U02': 'Every field of the parsed joint is proved to hold the value its attribute gives, for every joint element that is accepted, with defaults. ',
 'U03': 'Every field of the parsed link is proved to hold the value its attribute gives for up to 2 (thorough: 3) visuals and collisions, with defaults. ',
 'U04': 'Acceptance of a link element is proved equal to the stated condition for every combination of present, absent and malformed content, up to 2 visuals or collisions. ',
 'U09': 'Acceptance and content of materials are proved equal to the definition for every material element and visual. ',
 'U05': 'Acceptance of every description over up to 3 (thorough: 4) links with every choice of joints between them, duplicate, missing and unknown names, root elements and versions is proved equal to the stated condition. ',
 'U06': 'Every parent and child relation of every accepted tree of up to 4 links is proved to mirror the joints. ',
 'U07': 'Reading of one number is proved for every text; of vectors and colors for texts of up to 5 (thorough: 6) arbitrary words and every placement of spaces; writing for every value. ',
 'U08': 'Every field of every model read from descriptions covering all joint types, parts, shapes, names and materials (numbers and texts arbitrary) is proved unchanged by exporting and reading back, given that the XML printer and reader agree (X02). ',
 'W01': 'A batch call over symbolic rows, on a robot in any earlier state and after any earlier row, is proved equal to the answer of a freshly set robot, for all numbers. ',
 'W02': 'Every entry of every returned array is proved to be the quantity, row and column promised, for all numbers, on the enumerated robots and query lists. ',
 'W03': 'Center of mass, forces and Jacobians of the binding class are proved equal to the physical sums on the enumerated robots. ',
 'W04': 'Each pairwise squared distance is proved equal to its definition over the poses of the two links. ',
 'W05': 'Rows of every wrong length (and lists of every wrong length) are proved to be refused before any entry is read. ',
 'K17': 'Setters and getters are proved equal to the store/read definitions for any list, including the rejection of short lists. ',
 'S01': ('interprocedural effect analysis of static storage over the resolved AST', 'Every function of the library, parser, XML layer and binding is shown to store nothing in variables with static storage duration, through references, pointers, returned handles and called functions alike, and to initialise static locals from constants only. '),
 'X01': ('character-set abstract interpretation of scanning loops, with summaries proved separately', 'Every function that scans XML text is analysed over texts of any length: the characters at each position relative to the scanning pointers are abstracted by sets, loop heads are taken modulo a shift along the text, and callees enter by summaries that are themselves proved. Shown is that no read lies behind the terminating NUL and that no loop turns without moving on. Decimal and hexadecimal references longer than 5 digits, and error positions more than 4 (thorough: 6) characters after the last one, are not covered; reading from streams and files is not. '),
 'X02': ('path-exhaustive symbolic evaluation of the encoder and reader on texts of bounded length with character-set tables', 'Every character and every pair and triple (writing: up to 4, thorough: 5) of arbitrary characters, and the longer forms around character references, are proved to be written in the stated escaped form by every writer of attributes and text, and to be read back as they were in both encodings. '),
 'X03': ('typestate of owned objects with interprocedural summaries, and value-flow analysis of edit sequences over a heap model', 'Every function that obtains a node or attribute is shown to link, return or destroy it exactly once on every path; sequences of insertions, replacements and removals on bounded lists of arbitrary nodes are proved to leave a well-linked list that owns each node once. '),
 'X04': ('value-flow analysis over a heap model of the document tree', 'Lookup by name is proved equal to first-with-exactly-that-name for arbitrary texts on every list of up to 3 (thorough: 4) children or attributes with every mix of node kinds. '),
 'Y01': ('call-consistency lint of the Python AST against the PYBIND11_MODULE table, and value-flow analysis of the Python layer with symbolic array entries', PYN + 'Every use of a binding name is matched against the declared table; what each query sends and returns is proved for up to 3 (thorough: 4) joints, up to 2 (3) rows, every base and rotation type and every way of passing rows. '),
 'Y02': ('value-flow analysis of the Python layer with symbolic array entries', PYN + 'Rows sent and columns returned are proved for up to 3 (thorough: 6) joints and 3 rows, every query and setter. '),
 'Y03': ('value-flow analysis of the Python layer with symbolic array entries', PYN + 'The state set in the binding by a restored model is proved equal to that of the original after every history of up to 2 (thorough: 3) operations, failing and aliasing ones included, also pickled twice. '),
}
NA = {
 'N01': 'a numeric accuracy bound: it quantifies over rounding of runtime values along chains of unbounded length; no sound static bound is in reach here',
 'N02': 'a cost bound: the number of pose compositions per query depends on run-time cache contents and tree shape; not decided statically here',
 'N03': 'the library makes no thread-safety promise: queries write mutable caches without synchronisation by design, so there is nothing to decide beyond that fact',
}
def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if p in N:
            n = N[p]
            tech, note = (n, TRUST) if isinstance(n, tuple) else (VF, n)
            if isinstance(n, tuple):
                tech, note = n
            checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 checks/run.py %s' % p,
                           'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py %s' % p,
                           'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': 'other', 'level_note': note + TRUST})
        else:
            na.append({'property': p, 'reason': NA.get(p, 'no rule built for it yet')})
    m = {'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
main()
