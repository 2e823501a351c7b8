import os, numpy as np
from rankeval.dataset import Dataset
from rankeval.model import RTEnsemble
W = os.environ["WORK"]
def put(name, text):
    p = os.path.join(W, name)
    with open(p, "w") as f:
        f.write(text)
    return p


def leaf(v, pos=None):
    return '<split%s><output> %s </output></split>' % (' pos="%s"' % pos if pos else '', v)
def node(f, t, l, r, pos=None):
    return '<split%s><feature> %d </feature><threshold> %s </threshold>%s%s</split>' % (
        ' pos="%s"' % pos if pos else '', f, t, l, r)
def ranker(trees, ids=None, weights=None):
    return '<ranker><info><type>MART</type></info><ensemble>' + ''.join(
        '<tree id="%s" weight="%s">%s</tree>' % ((ids or range(1, 99))[i], (weights or [1] * 99)[i], t)
        for i, t in enumerate(trees)) + '</ensemble></ranker>'

from rankeval.analysis.topological import topological_analysis
def chain(n, pos=None):
    return leaf(n, pos) if n == 0 else node(1, n, leaf(n, "left"), chain(n - 1, "right"), pos)
hs = list(range(1, 62, 3))
m = RTEnsemble(put("m.xml", ranker([chain(h) for h in hs])))
t = topological_analysis(m)
assert np.asarray(t.height_trees).tolist() == hs, np.asarray(t.height_trees)
