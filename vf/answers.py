"""Answers to queries are the caller's own: snapshots which later changes do not touch and which may be spoilt."""
from vf.env import Violation


class Answers:
    def __init__(self):
        self.held = []

    def hold(self, what, answer):
        self.held.append((what, answer, [id(x) for x in answer], list(answer)))

    def check(self, after):
        """To be called after a change: the earlier answers are as they were. Then spoils them."""
        for what, answer, ids, was in self.held:
            if [id(x) for x in answer] != ids:
                raise Violation(f"{what} had been {was}; after {after} the answer given reads {list(answer)}")
        for _, answer, _, _ in self.held:
            if isinstance(answer, (list, set, dict)):
                answer.clear()
        self.held.clear()
