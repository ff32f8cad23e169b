package props

// longExpected holds reference digests of very long messages; regenerate with `simcheck longtable`.
var longExpected = map[string]string{
	"blake224/536870792":     "f73d45665652a41a5048d4004e9a8f062ad84ef78aa72a015a6f0301",
	"blake224/536870847":     "a89a6a280b938be8ac6eab8e40b896edf8ac6537e9af4e84680735af",
	"blake224/536870848":     "afc07e7f91615bf2a3d68da35c7a20ee3ffe89e089e30604616bb7b1",
	"blake224/536870856":     "62825148c3f90d36b3be017f2c6f3da67ba894e7b6dc8d285ca105e2",
	"blake224/536870903":     "638ebe575e1fd912daadf086ed0a089e72c0b2d0ea82d8b58332c155",
	"blake224/536870911":     "cca1be96383a7bb40ccc1ce8ce613f74b821fd4da27d4193274a5834",
	"blake224/536870912":     "2275fff0d24f0fb198e687682e61edc94dda14afe56161289d71aa52",
	"blake224/536870913":     "f3589f640b8fd182bdfe9bb3fe033c683d05a127f05422ab7056b396",
	"blake224/536870967":     "819cb3b204e552b770704e1e38464c6a6f64ff7a4f4c78df3b66f8b5",
	"blake224/536870968":     "56512a2f4fc453085600fa35d792aa9265e22b25f9e7c212e4387715",
	"blake224/536870975":     "028093b3c7133ee5d714b9dd917b771e0bc2e912c500cee74b36dfd0",
	"blake224/536870976":     "261f47acbdfa601157039a6a07e4bfdcb2c98dda35b722c48853a10f",
	"blake224/536870977":     "8d88798bd105bc6d544a0d4aa45d7930c071b3b472999bbf376b1233",
	"blake224/536871041":     "211043fac900ec0b8dacb26847c21041d90f553ceb9b6e37ff87766c",
	"blake256/536870792":     "44a07ffd1df9d8f4f4e9e40f3e577c361a4cc8cb7c26cf2cd8a9752bbdcb1bbb",
	"blake256/536870847":     "c4452d9a184e9098515d3777b4d73fc213d76d6e5e642eaed1939701bccf1f01",
	"blake256/536870848":     "415a5395e20ba71e3766d2c6439cbf074543d4049ed7a694c366156e0fc7796c",
	"blake256/536870856":     "6eedd60ac2cde7860744cf1db71059ea82c67a6befcdde1eee430434e90b4a71",
	"blake256/536870903":     "c040814fec710267f849271f77c38d761fbf717c2b6e62ffff0923e023d0bc33",
	"blake256/536870911":     "edb8c42720ceedfea9350e021084af3f99bebfa5e4c1f257c43c9e411d470c24",
	"blake256/536870912":     "4a9c720a57f12647cd9a818d3d0ecbb3c8166c1539a5475f89dff79172910fe0",
	"blake256/536870913":     "f4f8686fa509cb5f550541c95839eb3eb85aa861c88c935a61932cf0d9e2c132",
	"blake256/536870967":     "483946df595e19534e4b08627ff9b5d5df60d30183db65bc45756247d4d1d21b",
	"blake256/536870968":     "f7ba98c4f114fb2190695e28f2f75058b43069e7146c0f7f5f8717ab19fe5ad2",
	"blake256/536870975":     "3950030f642bc9ab874d3ffcb8565e0453d815602b8e185d54ba110883f5abaa",
	"blake256/536870976":     "48fcc12891a5829ea6497e8b4a01ea2234ab7ca99b5d6e98f9b9666b9e2915f6",
	"blake256/536870977":     "2db28dbfb48ba1f2371e1264dee9e76a425e5233e1ead35fb2110f0b8cf2f7e4",
	"blake256/536871041":     "a520b0e5c6f340f42b12586477104aff17f74763b333b85fec7ae6be47060321",
	"blake2s-mac/4294967176": "dff269e74fd3e1e06ef4333f2fb48dd0f2ae55fd15f51462b821232e79823ab5",
	"blake2s-mac/4294967231": "e3f71ac35e796acf69263664d075a239617c0fe15cb1b71ea7597dddf92754c6",
	"blake2s-mac/4294967232": "85664ee99625bfecbcef71aa4072c4e043e303d1f37a18ebefafb2d905edc869",
	"blake2s-mac/4294967240": "5892ac0f7b8269f6b4643f983df39ea508eeff7a2317a4950caa319f4ad95be4",
	"blake2s-mac/4294967287": "f64a2d4f0e06ca300b60523b9b7dd503be653e524963df44cb1e29d17f342bec",
	"blake2s-mac/4294967295": "b67e1029ccebd467334722eb10ea67528dcf4dd6866fa93a74a45bf95799bd5d",
	"blake2s-mac/4294967296": "beacfa61f4ef665bee1a3b7041598b807ae1084675801979c878807e6ab15ec3",
	"blake2s-mac/4294967297": "9e06dc2756f38030c4ff93ece388fd18eb5b254ff9d0e858e6850cf8c480da9f",
	"blake2s-mac/4294967351": "3aa844dc035760ca8db1ade96a6a7f864fa1c050331ccc45ebd586b76198f3ba",
	"blake2s-mac/4294967352": "19271809fa2fb4f1ec59da5b5199588135ec929d51776c140667c51a29eb6ccd",
	"blake2s-mac/4294967359": "ef9e83b79d50da4b02615d9008a0cef54bb2413a99a3a12f3088dbfb1905939c",
	"blake2s-mac/4294967360": "7de9c1a302f191c9e9b05fded465b12646c7b9e256e417eccbeb9e73221cf142",
	"blake2s-mac/4294967361": "7e47f95809ce9486b539e0ef58f35683941e439cee4dfa1cd08e29852b7fef95",
	"blake2s-mac/4294967425": "f6081680d8f95501423bfed5801ba08855daa2366b350d59dcd11903c9e68fa8",
	"blake2s/4294967176":     "1c685d5daee4c44e3622f70ebc1a7ca55d2ad132350eaf7c0ed6c1ec4dafa597",
	"blake2s/4294967231":     "9e2c7efae04efe4d20e14b5f50251ee2c8beda4f4e2f449260593c7d0a2025d2",
	"blake2s/4294967232":     "69e52e292da8c820515f6400c873040848cf6ae0fd67605d9b7c0c354eb00a37",
	"blake2s/4294967240":     "75d58dc14df1cd6b93520a3be4538f13b057ad8d1ba000d0b41b9315cc7dcf72",
	"blake2s/4294967287":     "40f7dd2e3d833a75e480db7e2bdd3829c654b1bfd4d63bfd777aa1ca9242388f",
	"blake2s/4294967295":     "bd109a94c9f424f74cada4878f2648790d92974ba4c8cfab8de4aef48cbe044d",
	"blake2s/4294967296":     "a4e4f6e89c283d9f6bd68bd115eba31e22b6d4099973324f2a6cb72db614295a",
	"blake2s/4294967297":     "60139b58d0fdc80b3085bbbfc63003624c2dd7a1e59a67fb74d11725f4da1cb2",
	"blake2s/4294967351":     "5b807259788c42694bac809bd4382fc4921a1f6366fe0344cf7074e242a6a801",
	"blake2s/4294967352":     "edf60a8011b7d59a1d0cca7e810451a26113231c2cd90270be375806efecd66f",
	"blake2s/4294967359":     "f813ca6b3585a31b85aac9802b50336711a14d82f480524c03dd86b97e48947e",
	"blake2s/4294967360":     "4bd3195457973d070b1f6281f58f4c41f22c3c2f7774c26a8b17266adbec2d19",
	"blake2s/4294967361":     "29cb6ca25384fbfbd7e0fca1c40b3c4d2d331673976d797190c0a264978b427f",
	"blake2s/4294967425":     "0d8d7ee6faf68c8240bdc089d57ff9144bae335bb82e2a304700bec9ae4f8e30",
	"blake512/536870792":     "9eb7081e4c215550b9b4795cbf7c681c1b1621dae2c0b168c8dad31e54f5cd30cb1dcb8e6442c8e477b49334957e17dabd137e9cb35f62ea53d0289ff07bd99b",
	"blake512/536870847":     "beb53f14bf30365f7ab312712c742e42ba1193ff7072017d5d304264686e0e770f06f788d02c53e81be52af8576132e2b6cab071f3aeb90f4fb0d9ffac173074",
	"blake512/536870848":     "a546853c6be7f52917d15e96c9cc1cfbdd07c67f084e32e90d709e1e4caa92baf03f11bdd10dacde2a87a7c0808d89ff19cd89054921c5c324b1ac5db433a1c6",
	"blake512/536870856":     "b8824dbc0de41a0e96eb8ca2ce505a52c37a2b94c8a52b440ee372855d3a23a2afdcfd981e851723b091d505bc2e72e8d2229cd7741a8afe9a9c869a640bef41",
	"blake512/536870903":     "8934ca59502a11203c85689c4a280fa1815a56e0d307c270ce82767121bee55f3e0e436baff361baa941235370d6d6571ceb60a1a571dc8d0e18f174c4c16945",
	"blake512/536870911":     "77ce69c39655a8336875317b5da3b43e1069c90fbb2341664c39c550f1f8d24cfbd5456c5d0674a382fe141849d31a5fadc666d310ed3cd1bc0148a01446b70e",
	"blake512/536870912":     "2fe9282c3a0a564ed0b64356ee154c42d38b897b79f5a20317788419b1110f88a5efb28dc7cb2c9c3b7109698fd52f31eae6d325d5966929e4bff5641015dcac",
	"blake512/536870913":     "0e9dc126d5ca3e71e61bb4f5d513ca133f1f787baa736c38f8e6bed858759e351a1382deba70130146405b3a1b2a635627832c00beb4cda898d27a2da3253930",
	"blake512/536870967":     "79edeb150ab9a4faeeba44123ea283967f1efe446f058f4be5aa6c3b7101da76d5b373e313d2f7f38d43bb6056fa61c68eef4d8ae99161e0d6b10285088a31a7",
	"blake512/536870968":     "bb648ed8f3c18856265150e2cf0591619e7bd756d974aeb7d9ac41fc2aa03984c99528150aab5f0c180ddf464f8c3b00b16d5e9dae3647350c76ad0189a861ca",
	"blake512/536870975":     "f758836621c59339fc0764381439b4954272f72ab5fca5664775164faa69ef42a7ec1d2254f35d4ae35920b5da73aedf4f0ea2d33f0156e50b249e7bc8181663",
	"blake512/536870976":     "df481b57f416c7141319caeef062787fdfa20ec2fa340aca11f0400b2b1f24bb03151f307ae878fc3b96e142494248ada17bcf86af867ab5cdc82eca3c379b5b",
	"blake512/536870977":     "f5e9c9d4c59c9484aa130578ad79b939ecffadf758ef6f366007c7537ed5acc0c2a8a16053bdfc5230697c0cd00fbf32dbc44559ea3d0e2d8812e471a1e1752a",
	"blake512/536871041":     "ed0777ba135402a82ae3524a4ddd73b25c899a93e518d84a4fa81aefb97566607eed5015333dcea900956475d9fec3c096e60ea10d9991a256543ee1871a6c3e",
	"sm3/536870792":          "82410090215e6bbe7218e7ca1bb340d9975c6031390a7e06b0341ec4b4d42ebb",
	"sm3/536870847":          "6f25fe653a5c24bff46a36d58eb8a8a30bc54d4ebda1c97ae58d8099f01121d4",
	"sm3/536870848":          "17901f5ac998410acdc1aed648a7cf6e1b4dfc6317a99fe4409fec9d81e14493",
	"sm3/536870856":          "111af4da91afd6d2e2342d283e057c34f0883a34bac6047872f3e6bd64f7c2b1",
	"sm3/536870903":          "3cabdb12cbd46fe3fca9a9a6c78baa830a80d33144bdc41fd9ff520e7440a35b",
	"sm3/536870911":          "99bdc7c712a9b4e69025831a956aed64b1120435e835dea33d9f851d0b145d2b",
	"sm3/536870912":          "be3cf3a01e0b9c3ca2ff5692d5e2365641a962a6f85294083d4994c7dd819133",
	"sm3/536870913":          "e2d282a752edfd89fda5b8a9614036152fb24f894d96fc82a488f288d7218dfc",
	"sm3/536870967":          "37cf76d473e65bb50e4ae6ba1092f9b98664bc58774b29a65a1daaf9920acd9c",
	"sm3/536870968":          "5feeecfd4f02a7ce35fbc909745dd157696603da48bd7cd18edd29ab462e2fd4",
	"sm3/536870975":          "453c60bd8b5a4f9dff142cee6f52955edb61e01011d369ffeee175c6952631f6",
	"sm3/536870976":          "84c74056ffaaf6c67f566715c59e4345bc2fe30a046329131cc30522cab139b0",
	"sm3/536870977":          "7a25169921c8139cf0dbf92cf01dad20538b607f3878ec7ed8766266916cf1cd",
	"sm3/536871041":          "94bb18691059db3034d6051486b51fff059792e81614a9b61bd42b6577ce16c8",
}
