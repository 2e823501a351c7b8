import os, numpy as np
from rankeval.dataset import Dataset
from rankeval.model import RTEnsemble
W = os.environ["WORK"]
def put(name, text):
    p = os.path.join(W, name)
    with open(p, "w") as f:
        f.write(text)
    return p


def leaf(v, pos=None):
    return '<split%s><output> %s </output></split>' % (' pos="%s"' % pos if pos else '', v)
def node(f, t, l, r, pos=None):
    return '<split%s><feature> %d </feature><threshold> %s </threshold>%s%s</split>' % (
        ' pos="%s"' % pos if pos else '', f, t, l, r)
def ranker(trees, ids=None, weights=None):
    return '<ranker><info><type>MART</type></info><ensemble>' + ''.join(
        '<tree id="%s" weight="%s">%s</tree>' % ((ids or range(1, 99))[i], (weights or [1] * 99)[i], t)
        for i, t in enumerate(trees)) + '</ensemble></ranker>'

from rankeval.analysis.feature import feature_importance
m = RTEnsemble(put("m.xml", ranker([node(1, 0.5, node(2, 0.5, leaf(1, "left"), leaf(2, "right"), "left"), leaf(3, "right"))])))
d = Dataset(np.array([[1, 0], [2, 1]], dtype=np.float32), np.array([1, 2], dtype=np.float32), np.array([1, 1]))
p = feature_importance(m, d)
assert p.sel(type="count").values.tolist() == [1, 1], p.values
