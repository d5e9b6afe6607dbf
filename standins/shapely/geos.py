class ReadingError(Exception):
    pass


class WKTReadingError(ReadingError):
    pass
