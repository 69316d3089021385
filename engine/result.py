"""One verdict of a rule about one construct."""


class Result(object):
    """verdict: 'held' | 'violation' | 'undecided' | 'broken'; 'bounded' = held for some fixed sizes; 'agreed' = no random
    interpretation tells the summary and the definition apart."""

    def __init__(self, rule, instance, verdict, where='', message='', detail=None):
        self.rule = rule
        self.instance = instance
        self.verdict = verdict
        self.where = where
        self.message = message
        self.detail = detail or {}

    @property
    def key(self):
        return '%s %s' % (self.rule, self.instance)
