def init(*a, **k):
    pass


def log(*a, **k):
    pass


class config:
    @staticmethod
    def update(*a, **k):
        pass
