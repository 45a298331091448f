from . import samplers as S
from . import models as M
from . import exps as E
from . import graphs as GR
from . import assembly as AS
from . import collect as CL
from . import names as NM
from . import training as TRN
from . import evals as EV
from . import esterr as EE

def p01(ctx):
  S.p01(ctx)
  M.p01m(ctx)


TAB = {
    'P01': (p01, ''), 'P02': (S.p02, ''), 'P03': (S.p03, ''), 'P04': (S.p04, ''), 'P05': (S.p05, ''), 'P06': (S.p06, ''),
    'P07': (S.p07, ''), 'P08': (S.p08, ''), 'P09': (S.p09, ''), 'P15': (S.p15, ''), 'P25': (S.p25, ''),
    'P10': (M.p10, ''), 'P11': (M.p11, ''), 'P12': (M.p12, ''), 'P13': (M.p13, ''), 'P14': (M.p14, ''), 'P26': (M.p26, ''), 'P28': (M.p28, ''),
    'P29': (M.p29, ''), 'P30': (M.p30, ''), 'P31': (M.p31, ''),
    'P23': (GR.p23, ''), 'P20': (AS.p20, ''), 'P21': (AS.p21, ''), 'P22': (CL.p22, ''), 'P24': (TRN.p24, ''), 'P32': (NM.p32, ''), 'P33': (EV.p33, ''), 'P34': (EE.p34, ''),
    'P16': (E.p16, ''), 'P17': (E.p17, ''), 'P18': (E.p18, ''), 'P19': (E.p19, ''), 'P27': (E.p27, ''),
}


def get(pid):
  """The check of a property and the explanation that goes into its evidence (from MANIFEST.json)."""
  import json
  import os
  fn, why = TAB[pid]
  try:
    with open(os.path.join(os.path.dirname(__file__), '..', '..', 'MANIFEST.json')) as f:
      c = [q for q in json.load(f)['checks'] if q['property'] == pid][0]
    why = why or '%s. %s' % (c['technique'], c['level_note'])
  except (OSError, ValueError, KeyError, IndexError):
    pass
  return fn, why
