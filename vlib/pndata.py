"""Coefficients of the Taylor T4 expansion of d(omega)/dt divided by 96/5 nu omega^2 v^5: power of v -> monomial: coefficient.
d=(m1-m2)/m, xs/xa = L.(chi1+-chi2)/2 (xs2, xs3 their powers where these carry their own switch), ss, aa, sa = scalar products of
chi_s=(chi1+chi2)/2 and chi_a=(chi1-chi2)/2, lnv=log v, ln2=log 2."""
T4={
 0:"1:1",
 2:"nu:-11/4 1:-743/336",
 3:"d*xa:-113/12 xs*nu:19/3 xs:-113/12 pi:4",
 4:"d*xs*xa:719/48 d*sa:-233/48 xs2*nu:1/24 xs2:719/96 xa2*nu:-30 xa2:719/96 ss*nu:-7/24 ss:-233/96 aa*nu:10 aa:-233/96 nu^2:59/18 nu:13661/2016 1:34103/18144",
 5:"d*xa*nu:1159/24 d*xa:-31319/1008 xs*nu^2:-79/3 xs*nu:22975/252 xs:-31319/1008 pi*nu:-189/8 pi:-4159/672",
 6:"d^2*xa2:565/9 d*xs*xa*nu:-9203/96 d*xs*xa:258295/2016 d*xa*pi:-80/3 d*sa*nu:2143/288 d*sa:-145/224 xs*pi*nu:40/3 xs*pi:-80/3 xs2*nu^2:3041/144 xs2*nu:-48773/576 xs2:258295/4032 xa2*nu^2:89/2 xa2*nu:-65815/4032 xa2:575/448 ss*nu^2:-7/144 ss*nu:1891/576 ss:-145/448 aa*nu^2:-89/6 aa*nu:21985/4032 aa:-145/448 pi^2*nu:451/48 pi^2:16/3 lnv:-1712/105 ln2:-3424/105 nu^3:-5605/2592 nu^2:541/896 nu:-56198689/217728 GammaE:-1712/105 1:16447322263/139708800",
 7:"d^2*xs*xa2:-3323/18 d^2*xa*sa:1091/18 d*xs^2*xa:-3323/12 d*xs*xa*pi:36 d*xs*sa*nu:-2533/72 d*xs*sa:1091/18 d*xs2*xa*nu:7679/72 d*xa*ss*nu:35/18 d*xa*ss:1091/36 d*xa*aa*nu:-739/6 d*xa*aa:1091/36 d*xa*nu^2:-41587/864 d*xa*nu:843811/6048 d*xa:-2519201/27216 d*xa3*nu:739/2 d*xa3:-3323/36 d*sa*pi:-12 xs*xs2*nu:851/16 xs*xa2*nu^2:-214 xs*xa2*nu:60907/144 xs*xa2:-3323/36 xs*ss*nu^2:-35/36 xs*ss*nu:-751/48 xs*ss:1091/36 xs*aa*nu^2:214/3 xs*aa*nu:-20269/144 xs*aa:1091/36 xs*nu^3:2045/216 xs*nu^2:-398269/2016 xs*nu:10713953/54432 xs:-2519201/27216 xs2*pi:18 xs3*nu^2:5/36 xs3:-3323/36 xa2*pi*nu:-72 xa2*pi:18 ss*pi:-6 aa*pi*nu:24 aa*pi:-6 pi*nu^2:91495/1512 pi*nu:358675/6048 pi:-4415/4032",
}
T4_bug={
 0:"1:1",
 2:"nu:-11/4 1:-743/336",
 3:"d*xa:-113/12 xs*nu:19/3 xs:-113/12 pi:4",
 4:"d*xs*xa:719/48 d*sa:-233/48 xs2*nu:97/16 xs2:719/96 xa2*nu:-1729/48 xa2:719/96 ss*nu:-39/16 ss:-233/96 aa*nu:583/48 aa:-233/96 nu^2:59/18 nu:13661/2016 1:34103/18144",
 5:"d*xa*nu:1159/24 d*xa:-31319/1008 xs*nu^2:-79/3 xs*nu:22975/252 xs:-31319/1008 pi*nu:-189/8 pi:-4159/672",
 6:"d^2*xa2:565/9 d*xs*xa*nu:-9203/96 d*xs*xa:258295/2016 d*xa*pi:-80/3 d*sa*nu:2143/288 d*sa:-145/224 xs*pi*nu:40/3 xs*pi:-80/3 xs2*nu^2:6371/288 xs2*nu:-43571/576 xs2:258295/4032 xa2*nu^2:12527/288 xa2*nu:-102229/4032 xa2:575/448 ss*nu^2:-13/32 ss*nu:37/576 ss:-145/448 aa*nu^2:-4169/288 aa*nu:34963/4032 aa:-145/448 pi^2*nu:451/48 pi^2:16/3 lnv:-1712/105 ln2:-3424/105 nu^3:-5605/2592 nu^2:541/896 nu:-56198689/217728 GammaE:-1712/105 1:16447322263/139708800",
 7:"d^2*xs*xa2:-3323/18 d^2*xa*sa:1091/18 d*xs^2*xa:-3323/12 d*xs*xa*pi:36 d*xs*sa*nu:-2533/72 d*xs*sa:1091/18 d*xs2*xa*nu:4789/72 d*xa*ss*nu:65/4 d*xa*ss:1091/36 d*xa*aa*nu:-4949/36 d*xa*aa:1091/36 d*xa*nu^2:-41587/864 d*xa*nu:843811/6048 d*xa:-2519201/27216 d*xa3*nu:14747/36 d*xa3:-3323/36 d*sa*pi:-12 xs*xs2*nu^2:485/24 xs*xs2*nu:1879/144 xs*xa2*nu^2:-16853/72 xs*xa2*nu:22229/48 xs*xa2:-3323/36 xs*ss*nu^2:-65/8 xs*ss*nu:-193/144 xs*ss:1091/36 xs*aa*nu^2:5651/72 xs*aa*nu:-2481/16 xs*aa:1091/36 xs*nu^3:2045/216 xs*nu^2:-398269/2016 xs*nu:10713953/54432 xs:-2519201/27216 xs2*pi:18 xs3:-3323/36 xa2*pi*nu:-72 xa2*pi:18 ss*pi:-6 aa*pi*nu:24 aa*pi:-6 pi*nu^2:91495/1512 pi*nu:358675/6048 pi:-4415/4032",
}
