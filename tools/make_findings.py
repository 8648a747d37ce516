import subprocess, os
M={'5c37017':'C02','2e4d0a3':'C27','3b5a499':'C03','a8682c5':'C03','2a38011':'C08','6fbca8c':'C08','9232f8c':'C09','4aeac0d':'C09','f98a920':'C08','d63f03b':'C08','2cfd716':'C08','47d4b79':'C09','213fd87':'C17','7fe289a':'C11','7e87fa3':'C19','e1744ea':'C06','d25c9cd':'C05','b483c27':'C02','d1121a2':'C02','8a84f98':'C02','016c990':'C02','3edfeed':'C01','6fbac98':'C01','8778ea2':'C05','4573b28':'C04','bcc1735':'C03','ef086ec':'C03','62bff53':'C03','8e2954d':'C03','f6ef303':'C02','7f097ac':'C02','0174df5':'C24','fa38b9e':'C03','1ad4477':'C03','19f49b6':'C05','0de1763':'C06','6730331':'C19','2587eeb':'C09','bfcef02':'C22','ee86f73':'C08','5a9084f':'C09','8aff013':'C07','efd0326':'C22','1df416d':'C23','d53e854':'C06','1c83c76':'C12','74eed58':'C24','955d144':'C03','878e5d0':'C04','4647570':'C17','3b941d2':'C05','1304f41':'C24','35f3d3d':'C24','5b63f0d':'C24','99af2e3':'C01','d71288f':'C01'}
out=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','9b821cd..HEAD'],text=True)
lines=['# Genuine defects of SciTools/biggus which the checks found.',
'# "fixed:" entries were repaired in /repo and suppress nothing.',
'# "finding: property=<id> <key> <what>" lines are open; a check prints',
'# KNOWN-FINDING for them instead of VIOLATION. (There are none.)','']
for l in out.splitlines():
    h,s=l.split(' ',1)
    lines.append('fixed: property=%s %s %s'%(M[h],h,s[5:]))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known-findings.txt'),'w').write('\n'.join(lines)+'\n')
