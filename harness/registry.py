CHECKS = {p: {} for p in ['C%02d' % i for i in range(1, 40)]}
CHECKS['C29']['gen'] = [{'module': 'GenNet.tla', 'kind': 'net', 'quick': 'GenNet.cfg', 'thorough': 'GenNetT.cfg'}]
SESSION = {'module': 'GenSession.tla', 'kind': 'session', 'quick': 'GenSession.cfg', 'thorough': 'GenSessionT.cfg', 'exhaustive': False}
for p in ('C05', 'C06', 'C07', 'C08'): CHECKS[p].setdefault('gen', []).append(SESSION)
for p in ('C06', 'C08'): CHECKS[p].setdefault('designs', []).append({'module': 'MCSession.tla', 'quick': 'MCSession.cfg', 'thorough': 'MCSessionT.cfg', 'workers': 4})
POINTS = {'module': 'GenPoints.tla', 'kind': 'points', 'quick': 'GenPoints.cfg', 'thorough': 'GenPointsT.cfg', 'exhaustive': False}
for p in ('C24', 'C25'): CHECKS[p].setdefault('gen', []).append(POINTS)
CHECKS['C24'].setdefault('designs', []).append({'module': 'MCPoints.tla', 'quick': 'MCPoints.cfg', 'thorough': 'MCPointsT.cfg', 'workers': 4})
CHECKS['C05'].setdefault('designs', []).append({'module': 'MCSession.tla', 'quick': 'MCSession0.cfg', 'workers': 4})
CHECKS['C01'].setdefault('designs', []).append({'module': 'KeyDesign.tla', 'quick': 'KeyDesign.cfg', 'thorough': 'KeyDesignT.cfg', 'workers': 4})
CHECKS['C02'].setdefault('designs', []).append({'module': 'BuildDesign.tla', 'quick': 'BuildDesign1.cfg', 'thorough': 'BuildDesign.cfg', 'workers': 4})
CHECKS['C06'].setdefault('designs', []).append({'module': 'NeighDesign.tla', 'quick': 'NeighDesign.cfg', 'thorough': 'NeighDesignT.cfg', 'workers': 4})
CHECKS['C09'].setdefault('designs', []).append({'module': 'OpsDesign.tla', 'quick': 'OpsDesign.cfg', 'thorough': 'OpsDesign2.cfg', 'workers': 4})
for p in ('C10', 'C12'): CHECKS[p].setdefault('designs', []).append({'module': 'OpsDesign.tla', 'thorough': 'OpsDesignT.cfg', 'workers': 6})
CHECKS['C30']['gen'] = [{'module': 'GenVote.tla', 'kind': 'vote', 'quick': 'GenVote.cfg', 'thorough': 'GenVoteT.cfg', 'exhaustive': False}]
CHECKS['C30']['designs'] = [{'module': 'MCVote.tla', 'quick': 'MCVote.cfg', 'thorough': 'MCVoteT.cfg', 'workers': 4}]
CHECKS['C39']['gen'] = [{'module': 'GenGrad.tla', 'kind': 'chain', 'quick': 'GenGrad.cfg', 'thorough': 'GenGradT.cfg', 'exhaustive': False}]
CHECKS['C39']['designs'] = [{'module': 'GradDesign.tla', 'quick': 'GradDesign.cfg', 'thorough': 'GradDesignT.cfg', 'workers': 4}]
NOT_APPLICABLE = {}
