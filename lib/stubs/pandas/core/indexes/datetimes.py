class DatetimeIndex:
    pass
