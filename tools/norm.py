import re,sys
for l in sys.stdin:
    l=l.replace('<{','{').replace('}>','}')
    m=re.match(r'(.*)"(tfl\.(?:add|sub|mul|div))"\((%\S+), (%\S+)\) (\{[^}]*\}) : \((\S+), (\S+)\) -> (\S+)',l)
    if m and m[6]==m[7]==m[8]: l='%s%s %s, %s %s : %s\n'%(m[1],m[2],m[3],m[4],m[5],m[6])
    elif m: l='%s%s(%s, %s) %s : (%s, %s) -> %s\n'%(m[1],m[2],m[3],m[4],m[5],m[6],m[7],m[8])
    m=re.match(r'(.*)"(tfl\.(?:greater_equal|less_equal))"\((%\S+), (%\S+)\) : (.*)$',l)
    if m: l='%s%s(%s, %s) : %s\n'%(m[1],m[2],m[3],m[4],m[5])
    sys.stdout.write(l)
