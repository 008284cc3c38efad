"""roc_curve, auc and classification_report as documented by scikit-learn."""
import numpy as np

from mc.core import StandInGap


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise StandInGap("sklearn.metrics.%s" % name)


def _col(x):
    a = np.asarray(getattr(x, "values", x))
    if a.ndim == 2 and a.shape[1] == 1:
        a = a[:, 0]
    if a.ndim != 1:
        raise ValueError("bad input shape %s" % (a.shape,))
    return a


def roc_curve(y_true, y_score, pos_label=None, sample_weight=None, drop_intermediate=True):
    if sample_weight is not None:
        raise StandInGap("roc_curve(sample_weight)")
    y, s = _col(y_true), _col(y_score).astype(float)
    if len(y) != len(s):
        raise ValueError("Found input variables with inconsistent numbers of samples: [%d, %d]" % (len(y), len(s)))
    labels = set(y.tolist())
    if pos_label is None:
        if not labels <= {0, 1, -1}:
            raise ValueError("y_true takes value in %s and pos_label is not specified" % sorted(map(str, labels)))
        pos_label = 1
    pos = np.array([v == pos_label for v in y.tolist()], dtype=float)
    order = np.argsort(-s, kind="mergesort")
    s, pos = s[order], pos[order]
    idx = np.r_[np.where(np.diff(s))[0], len(s) - 1]
    tps = np.cumsum(pos)[idx]
    fps = 1 + idx - tps
    thr = s[idx]
    if drop_intermediate and len(fps) > 2:
        keep = np.where(np.r_[True, np.logical_or(np.diff(fps, 2), np.diff(tps, 2)), True])[0]
        fps, tps, thr = fps[keep], tps[keep], thr[keep]
    tps, fps, thr = np.r_[0, tps], np.r_[0, fps], np.r_[thr[0] + 1, thr]
    fpr = fps / fps[-1] if fps[-1] > 0 else np.full(fps.shape, np.nan)
    tpr = tps / tps[-1] if tps[-1] > 0 else np.full(tps.shape, np.nan)
    return fpr, tpr, thr


def auc(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    if len(x) < 2:
        raise ValueError("At least 2 points are needed")
    d = np.diff(x)
    sign = 1
    if np.any(d < 0):
        if np.all(d <= 0):
            sign = -1
        else:
            raise ValueError("x is neither increasing nor decreasing")
    return float(sign * np.sum(np.diff(x) * (y[1:] + y[:-1]) / 2.0))


def roc_auc_score(y_true, y_score):
    f, t, _ = roc_curve(y_true, y_score)
    return auc(f, t)


def confusion_matrix(y_true, y_pred, labels=None):
    a, b = _col(y_true).tolist(), _col(y_pred).tolist()
    labels = list(labels) if labels is not None else sorted(set(a) | set(b))
    res = np.zeros((len(labels), len(labels)), dtype=int)
    for x, y in zip(a, b):
        if x in labels and y in labels:
            res[labels.index(x), labels.index(y)] += 1
    return res


def accuracy_score(y_true, y_pred):
    a, b = _col(y_true).tolist(), _col(y_pred).tolist()
    return float(np.mean([x == y for x, y in zip(a, b)]))


def classification_report(y_true, y_pred, labels=None, target_names=None, sample_weight=None, digits=2, output_dict=False,
                          zero_division="warn"):
    if not output_dict or sample_weight is not None:
        raise StandInGap("classification_report(output_dict=False)")
    t, p = _col(y_true).tolist(), _col(y_pred).tolist()
    if len(t) != len(p):
        raise ValueError("Found input variables with inconsistent numbers of samples: [%d, %d]" % (len(t), len(p)))
    present = sorted(set(t) | set(p))
    given = labels is not None
    labels = list(labels) if given else present
    micro_is_accuracy = not given or set(labels) == set(present)
    if target_names is None:
        target_names = [str(x) for x in labels]
    if len(target_names) != len(labels) and given:
        raise ValueError("labels size, %d, does not match size of target_names, %d" % (len(labels), len(target_names)))
    rows, tp_all, pred_all, true_all = {}, 0, 0, 0
    stats = []
    for name, lab in zip(target_names, labels):
        tp = sum(1 for a, b in zip(t, p) if a == lab and b == lab)
        np_, nt = sum(1 for b in p if b == lab), sum(1 for a in t if a == lab)
        pr = tp / np_ if np_ else 0.0
        rc = tp / nt if nt else 0.0
        f1 = 2 * pr * rc / (pr + rc) if pr + rc else 0.0
        stats.append((pr, rc, f1, nt))
        rows[name] = {"precision": pr, "recall": rc, "f1-score": f1, "support": nt}
        tp_all, pred_all, true_all = tp_all + tp, pred_all + np_, true_all + nt
    total = sum(s[3] for s in stats)
    if micro_is_accuracy:
        rows["accuracy"] = tp_all / true_all if true_all else 0.0
    else:
        pr = tp_all / pred_all if pred_all else 0.0
        rc = tp_all / true_all if true_all else 0.0
        rows["micro avg"] = {"precision": pr, "recall": rc, "f1-score": 2 * pr * rc / (pr + rc) if pr + rc else 0.0, "support": total}
    for avg in ("macro avg", "weighted avg"):
        w = [1.0] * len(stats) if avg == "macro avg" else [s[3] for s in stats]
        sw = sum(w)
        rows[avg] = {k: (sum(s[i] * x for s, x in zip(stats, w)) / sw if sw else 0.0)
                     for i, k in enumerate(("precision", "recall", "f1-score"))}
        rows[avg]["support"] = total
    return rows
