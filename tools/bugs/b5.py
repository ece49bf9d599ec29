H = '''
import numpy as np
import tensornetwork as tn
'''
BUGS = [
dict(id="X03-binding-set", prop="X03", edits=[("tensornetwork/network_operations.py",
"""          binding_list.append(e_id)
    else:
""",
"""          if e_id not in binding_list:
            binding_list.append(e_id)
    else:
""")],
needs="a binding sequence that names one edge more than once",
breaks="repeated entries of a binding disappear, so its positions no longer correspond",
demo=H + '''
a = tn.Node(np.ones((2, 3)), name="a")
_, b = tn.nodes_from_json(tn.nodes_to_json([a], {"k": [a[0], a[1], a[0]]}))
assert len(b["k"]) == 3 and b["k"][0] is b["k"][2], b
'''),
]
