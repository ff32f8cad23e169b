package ref

// Multiples of the base points whose affine coordinates have two or more zero
// bytes at an end (x, y: leading; u, v: trailing; b: one leading in each), found
// once by search: "name first", then class:offset from first.  For 25519 x is the
// Montgomery and y the Edwards coordinate.
const shortPoints = `secp256k1 21cb908217ace89f051be6bad5b49453a1ddaad17bf553dc2ca53310a90bbf4 u2:2100613 y2:4199428 u2:8393435 u2:8393560 x2:8695 v2:12594304 y2:4203925 x2:10503026 b:18150 b:18266 u2:8408612 y2:20324 u2:4212722 v2:4213350 x2:14698537 b:23041 y2:6322262 u2:2123374 u2:4222407 y2:12612780 b:6325633 x2:8424547 b:10519752 y2:12621089 x2:4229479 v2:4230436 b:2142208 u2:2143051 b:43978 u2:2143910 u2:4238080 b:10535240 x2:51262 u2:54834 x2:8446118 x2:10543613 x2:10545326 b:14741714 y2:14743489 y2:6361555 u2:6362888 y2:12643630 b:8451746 b:6377178 v2:2175971 x2:80024 x2:14765048 v2:6385708 v2:4272281 y2:8477570 v2:12667115 v2:10576560 x2:4283944 y2:10578022 b:10578106 v2:95308 y2:14778226 v2:14778433 v2:10589683 v2:12696720 y3:7329021 y3:11550555 u3:6079777
secp256r1 270d5bb44bbc2e909ff6c8af67b5094690d299264cc0dbf9d34d6e4c2275d09 b:14683988 y2:6293254 y2:14684748 b:7264 y2:6294732 y2:4198709 y2:8396444 x2:14688762 v2:4200984 v2:6298641 x2:20084 y2:14697348 u2:8410945 u2:8415338 u2:34211 v2:2122691 b:4224908 u2:4227400 v2:10517861 b:2129019 b:43111 b:4231924 b:6327795 u2:14713813 y2:8428180 b:8429193 y2:14719928 u2:6336581 u2:57799 v2:8438473 u2:6343330 x2:4246637 v2:10535236 y2:62519 y2:10537183 b:6349345 u2:4254759 y2:10540427 v2:12638773 u2:6352325 b:10542451 x2:12646985 u2:78147 u2:12648825 v2:2172738 y2:6364676 v2:6370861 v2:12661289 v2:8475785 v2:4291981 x2:2200422 x2:108507 x2:109699 b:6401649 b:122351 x2:136395 x2:2235778 x2:8509212 x2:4348993 x2:2271453 x3:2398596 y3:6993142 u3:10408967
sm2 25b996d4435dcaccb13a33c4072a2dc27ea8d7cf3dbc19f18f0d6c8dba68a30 y2:8388786 x2:8391462 b:8393194 x2:10489901 u2:12588316 v2:12588820 y2:7056 y2:12592884 b:8400061 y2:10496905 u2:12595770 v2:8403694 u2:14696122 x2:4209510 b:14696423 v2:12606727 b:10509260 y2:2128883 b:12612880 y2:14709016 x2:6334923 y2:10523390 y2:10526588 v2:8432663 u2:8433244 x2:4236934 y2:6345381 v2:6345670 y2:53025 v2:8444028 x2:12637728 y2:66527 y2:14740390 u2:12644746 u2:6362958 b:14745184 v2:12652554 b:12654737 v2:82198 b:14753448 u2:2184659 u2:8473382 u2:2192862 v2:8477670 v2:12669706 v2:2199733 x2:102605 b:12672825 b:14770079 u2:2206131 v2:6399533 u2:12677453 u2:2211361 x2:8496524 x2:14786866 b:14787768 b:8502029 x2:12727710 x2:179475 x2:188317 x3:15431392 u3:6201339
pallas 191eb28149209b66e9fb4fd6bb3d2474d2348ec090352e61ea8eb71b66a2ca5 b:8388889 b:12583768 y2:14681428 x2:10486386 b:6292773 b:14681778 b:4195700 x2:10487814 x2:4196156 b:14681985 b:14682348 b:10488926 b:10488992 b:8390523 b:8390851 b:8391050 x2:12589741 u2:10492335 x2:6299968 v2:2104482 y2:4200398 y2:6817 u2:12591124 u2:6302700 y2:10493918 u2:2106222 x2:12592467 u2:4202244 x2:2108191 y2:6306041 x2:10496331 y2:2109197 x2:4204979 y2:8400470 x2:8401493 v2:2111189 x2:10502226 y2:16561 y2:10503276 x2:16746 v2:4210940 y2:12599657 y2:6312854 y2:2116109 u2:2118640 v2:4215420 v2:25555 v2:4217907 v2:12611886 v2:10526403 u2:4244256 u2:12630384 v2:14730807 u2:2149706 v2:14736766 u2:6357370 u2:2157860 v2:4262308 u2:6366641 v2:6381703 x3:12714075 v3:8622399 x3:13579814 y3:3390966 y3:9840923 v3:7882007 x3:10067676 x3:8083358 y3:3904576 y3:1886831 x3:1898703
25519 2c1972b848342ebc4481ae9a2d0aa102a210470a71fe5298c432f5bcbe751af b:8390626 y2:14680968 b:6294141 x2:4196799 b:2099367 x2:14682691 b:4783 b:2103134 u2:2103963 v2:8396693 x2:5658 b:12594424 y2:10498054 b:12596065 x2:8404471 x2:14693471 x2:6307462 b:12600264 b:10502524 y2:10503667 u2:2116438 x2:8408866 x2:20795 v2:14698865 x2:22373 y2:8410837 y2:6313851 v2:14703537 x2:2123415 x2:2124135 x2:14706055 b:10513417 y2:32531 v2:2128168 b:8420226 b:33275 v2:43075 v2:4235553 y2:44011 u2:6334596 u2:10529173 v2:49267 y2:12634646 y2:10535270 y2:14725407 v2:14725591 y2:10536434 v2:8442521 y2:2154436 u2:4252137 x3:10543701 v2:4257244 u2:2168997 v2:8463925 u2:76459 u2:14748935 v2:10560404 u2:12665111 u2:84309 u2:2181781 u2:8485128 v3:14895859 x3:8628336 v3:14927789 x3:387089 u3:2527230 u3:13111480 y3:2944815 x3:1193973 y3:7991987`
