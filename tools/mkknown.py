"""Write KNOWN_FINDINGS.txt from the fix: commits in /repo and the map below."""
import subprocess
P = dict(x.split(':') for x in """80463c2:P01,P02 bdc5ece:P01 3cb956d:P02 a18eec3:P03 17c7868:P05 0491cee:P05 35bf339:P06,P14 dd0bc00:P06 46e353b:P06
2190709:P06 5ab3b42:P07,P10 73f5ecb:P12 de24528:P12 a599491:P12 e1b0fb1:P12,P13 581903a:P20 71facec:P20 5da08cd:P09 a9eec6e:P07,P08 7af1a13:P08
690faeb:P16,P08 cb87939:P08 1ee1244:P08,P13 14d25a7:P08,P14 db4f540:P08,P16 e2fc441:P16 0501e50:P17 ca8bbca:P08 798f19f:P11,P13 483f3e1:P10
52adaa4:P23 f01555e:P19 7b66294:P19 b92f681:P20 ae6587f:P20,P26 2210659:P21 4bd62e1:P26 c6d9141:P20 ebd4b81:P25 6155b41:P25,P17 06376d2:P14
8e900db:P08,P16 ca9be03:P08,P14 cce0fcb:P14 ad4997f:P14,P15,P16 dd23498:P14 628bf86:P18 7c0d70e:P18 9d9c802:P18 8884de9:P18,P17 e84ec04:P08
59faa23:P08,P25 d082aab:P08 4ee271b:P11,P08 87f868a:P25,P08 6e6f604:P08,P17 dcce587:P09 133c41e:P09 684cdbc:P09,P13 53773fb:P11,P10 2cbc2ef:P12,P10
5723365:P10,P13,P18 7a4edc6:P11 571b4cb:P12 fd0e221:P14 5c67e41:P16,P08 3037017:P14,P15,P18 2fce330:P18,P13 53f49de:P16,P18 fab0f6c:P14
e42939d:P14,P15 f5ec97d:P14 ab22f44:P14 16f7353:P15 d87f63b:P16 6156c0f:P17,P25 38d7f43:P13
6d210a1:P11 3fab63d:P11 9d8374e:P14""".split())
KNOWN = ["KNOWN-FINDING: property=P08 id=addmasksim-elasticnet AddMaskSim(ConvElasticNet, ...) with mu > 0 (lmbda 0.01, mu 0.5, D = [[1]], "
         "S = [1, v], W = [1, 0]): the solution depends on the masked sample v, because the l2 term also acts on the appended impulse maps. "
         "Not repaired: the wrapped class has no notion of the appended filters, so a repair changes the interface of the class."]
out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
lines, miss = [], []
for l in out:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    if h[:7] not in P:
        miss.append(l)
        continue
    for p in P[h[:7]].split(','):
        lines.append('fixed: property=%s %s %s' % (p, h, s[4:].strip()))
with open('/verif/KNOWN_FINDINGS.txt', 'w') as f:
    f.write('# Genuine defects of sporco found by the checks of this repository.\n'
            '# "fixed:" entries name the repairing commit in /repo and suppress nothing;\n'
            '# "KNOWN-FINDING:" entries are recorded but not repaired (see DESIGN.md).\n')
    f.write('\n'.join(KNOWN + lines) + '\n')
print(len(lines), 'entries; not mapped:', miss)
