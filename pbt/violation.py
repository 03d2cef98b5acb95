class Violation(Exception):
    """The property under test does not hold for this case. Nothing else is a violation."""

    def __init__(self, message: str, key: str = "") -> None:
        super().__init__(message)
        self.key = key
