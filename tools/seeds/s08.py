ID = 'period-unit'
PROPERTY = 'C21'
NEEDS = '''a period whose bounds have different units, the first one being the
coarser'''
BREAKS = '''the duration unit is the one of the beginning of the period, so
that the last instant of the period, and all that is derived from it, is wrong'''
EDITS = [('zcollection/merging/period.py',
          '''        duration_unit: str = _min_time64_unit(begin.dtype, end.dtype)

        #: The beginning of the period.''',
          '''        duration_unit: str = _min_time64_unit(begin.dtype, begin.dtype)

        #: The beginning of the period.''')]
DEMO = '''
def main(root):
    from zcollection.merging.period import Period
    period = Period(D('2000-01-01', 'D'), D('2000-01-02T12', 'h'))
    expect(period.contains(D('2000-01-02T11', 'h')), 'contains')
    expect(not period.contains(D('2000-01-02T12', 'h')), 'end')
    expect(period.end() == D('2000-01-02T12', 'h'), period.end())
'''
