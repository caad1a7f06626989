OBLIGATIONS = [
    Ob('error_codes', 'c17.c', functions=['FL2_isError', 'FL2_isTimedOut', 'FL2_getErrorCode', 'FL2_getErrorString', 'FL2_getErrorName', 'IsError'],
       min_reach=3),
]
RAC = []
TRUSTED = ['CBMC 6.11.0 C front end and MiniSat', 'fl2_common.c is included whole and unmodified']
ASSUMPTIONS = []
NOTE = 'CBMC proves every code and every size; fl2_common.c is verified whole.'
