import os, numpy as np
from rankeval.dataset import Dataset
from rankeval.model import RTEnsemble
W = os.environ["WORK"]
def put(name, text):
    p = os.path.join(W, name)
    with open(p, "w") as f:
        f.write(text)
    return p


def leaf(v, pos=None):
    return '<split%s><output> %s </output></split>' % (' pos="%s"' % pos if pos else '', v)
def node(f, t, l, r, pos=None):
    return '<split%s><feature> %d </feature><threshold> %s </threshold>%s%s</split>' % (
        ' pos="%s"' % pos if pos else '', f, t, l, r)
def ranker(trees, ids=None, weights=None):
    return '<ranker><info><type>MART</type></info><ensemble>' + ''.join(
        '<tree id="%s" weight="%s">%s</tree>' % ((ids or range(1, 99))[i], (weights or [1] * 99)[i], t)
        for i, t in enumerate(trees)) + '</ensemble></ranker>'

from rankeval.analysis.feature import feature_importance
m = RTEnsemble(put("m.xml", ranker([node(1, 0.5, leaf(1, "left"), leaf(2, "right"))])))
n = 400000
X = (np.arange(n) % 2).astype(np.float32).reshape(-1, 1)
d = Dataset(X, 1 + 2 * X[:, 0], np.ones(n, dtype=np.int32))
for i in range(20):
    v = float(feature_importance(m, d, normalize=False).sel(type="importance")[0])
    assert abs(v - 1) < 1e-3, v
