"""Design-specification scenarios: (name, NT, constants), and the defects each one must reject."""
SCN = {
 # name: (setup, prog, main, NT, TsoCap, DefRing, Passes, Skew, {defect: scenario must reject it})
 'blockS':  ('BlockSetup','BlockProgS','BlockMain',4,4,False,2,False),
 'block3':  ('BlockSetup','BlockProg3','BlockMain',5,4,False,3,False),
 'orderS':  ('OrderSetup','OrderProgS','CoreMain',4,3,False,2,True),
 'flushS':  ('FlushSetup','FlushProg','FlushMain',4,4,False,1,False),
 'lifeT':   ('LifeSetup','LifeProgT','LifeMain',4,4,False,2,False),
 'tsT':     ('TsSetup','TsProgS','TsMain',5,8,False,1,False),
 'restart2':('RestartSetup','RestartProg2','RestartMain',4,4,True,2,False),
 'coreS':   ('CoreSetupS','CoreProgS','CoreMain',5,4,False,2,False),
 'coreS1':  ('CoreSetupS','CoreProgS','CoreMain',5,1,False,2,False),
 'coreS0':  ('CoreSetupS','CoreProgS','CoreMain',5,0,False,2,False),
 'lifeS':   ('LifeSetup','LifeProgS','LifeMain',5,4,False,2,False),
 'tsS':     ('TsSetup','TsProgS','TsMain',5,8,False,2,False),
 'core':    ('CoreSetup','CoreProg','CoreMain',5,4,False,2,False),
 'corebig': ('CoreSetup','CoreProg','CoreMain',5,1,False,2,False),
 'corenot': ('CoreSetup','CoreProg','CoreMain',5,0,False,2,False),
 'order':   ('OrderSetup','OrderProg','CoreMain',4,8,False,3,True),
 'order2':  ('OrderSetup','OrderProg','CoreMain',4,2,False,3,True),
 'block':   ('BlockSetup','BlockProg','BlockMain',5,4,False,3,False),
 'block1':  ('BlockSetup','BlockProg','BlockMain',5,1,False,3,False),
 'blocknot':('BlockSetup','BlockProg','BlockMain',5,0,False,3,False),
 'flush':   ('FlushSetup','FlushProg','FlushMain',4,4,False,3,False),
 'life':    ('LifeSetup','LifeProg','LifeMain',5,4,False,3,False),
 'life2':   ('LifeSetup','LifeProg2','LifeMain',4,4,False,3,False),
 'ts':      ('TsSetup','TsProg','TsMain',5,8,False,2,False),
 'restart': ('RestartSetup','RestartProg','RestartMain',4,4,True,2,False),
}
DEFECTS = {
 'nolock':['core'], 'overwrite':['core'], 'nofullmark':['order2','corebig'], 'nosort':['order'], 'noleft':['order'], 'nomark':['core'],
 'seqtimeout':['flush'], 'ackearly':['flush'], 'unblock':['block'], 'killcheck':['life','life2'], 'reuse':['life'], 'leakref':['life'],
 'tsrace':['ts'], 'tspartial':['ts'], 'expreset':['restart'],
}
def cfg(name, defect=None):
    s,p,m,nt,cap,dr,ps,sk = SCN[name]
    return f"""SPECIFICATION Spec
CONSTANTS NT = {nt}
Setup <- {s}
Prog <- {p}
MainProg <- {m}
TsoCap = {cap}
DefRing = {str(dr).upper()}
Passes = {ps}
Skew = {str(sk).upper()}
Fine = {str(name[:2]=='ts').upper()}
Defect = {{{'"'+defect+'"' if defect else ''}}}
INVARIANTS Good NoStuck
VIEW View
CHECK_DEADLOCK FALSE
"""
