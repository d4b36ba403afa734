"""Recommenders with known scores (importable by child processes that load saved models)."""
from DRecPy.Recommender import RecommenderABC


class TableModel(RecommenderABC):
    """Scores from a table of raw ids; None for pairs without prediction."""

    def __init__(self, table=None, **kwds):
        super().__init__(**kwds)
        self.table = table or {}

    def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
        d = self.interaction_dataset
        self.scores = {}
        for (u, i), s in self.table.items():
            uid, iid = d.user_to_uid(u), d.item_to_iid(i)
            if uid is not None and iid is not None:
                self.scores[(int(uid), int(iid))] = s

    def _sample_batch(self, batch_size, **kwds):
        raise NotImplementedError

    def _predict_batch(self, batch_samples, **kwds):
        raise NotImplementedError

    def _compute_batch_loss(self, predictions, desired_values, **kwds):
        raise NotImplementedError

    def _predict(self, uid, iid, **kwds):
        if uid is None or iid is None:
            return None
        return self.scores.get((int(uid), int(iid)))
