// Generated by tools/gen_curves.py. Columns: bits of p; p, a, b (Edwards: d), s, r, h, gx, gy in hexadecimal.
#[rustfmt::skip]
pub const W: &[(u32, [&str; 8])] = &[
(6, ["2b", "0", "12", "0", "1f", "1", "7", "13"]),
(7, ["4f", "0", "1e", "0", "61", "1", "43", "23"]),
(8, ["e5", "0", "43", "0", "df", "1", "60", "5d"]),
(9, ["16f", "83", "9", "0", "14b", "1", "80", "3"]),
(10, ["3df", "0", "2e6", "0", "3f1", "1", "215", "155"]),
(11, ["6d3", "2c4", "11e", "0", "727", "1", "4e7", "ea"]),
(12, ["f5b", "0", "68f", "0", "fb5", "1", "e61", "5f5"]),
(13, ["10a5", "338", "6ef", "0", "1105", "1", "74b", "780"]),
(14, ["3a63", "0", "2b1b", "0", "3979", "1", "3978", "1e1"]),
(15, ["65fb", "1a2c", "2b02", "0", "673f", "1", "4b8b", "21d5"]),
(16, ["a52b", "0", "182", "0", "a3d5", "1", "9c05", "122d"]),
(17, ["1ac1d", "1bea", "1a3fc", "0", "1aeab", "1", "3db9", "5f18"]),
(18, ["28fb7", "0", "185dd", "0", "28ccf", "1", "1d508", "3770"]),
(19, ["5e7ad", "1c584", "56380", "0", "5ead7", "1", "38a89", "2df34"]),
(20, ["f5bab", "0", "f531b", "0", "f54c7", "1", "569d4", "2f343"]),
(21, ["123d1b", "2b06b", "675a8", "0", "124561", "1", "136cc", "8ca8e"]),
(22, ["25812d", "0", "24f533", "0", "257659", "1", "17fa61", "11e3b9"]),
(23, ["5a121f", "ee226", "258687", "0", "5a0db7", "1", "3825b1", "2d0327"]),
(24, ["be56bb", "0", "3b900e", "0", "be7179", "1", "bad50f", "4823b9"]),
(25, ["1b906cd", "6febec", "13adad1", "0", "1b92fad", "1", "12390a", "3df765"]),
(26, ["26fd163", "0", "2134b5d", "0", "26fc73d", "1", "4c0cac", "1158a7a"]),
(27, ["4cb69e5", "39ab5f4", "1ebb4a8", "0", "4cb2887", "1", "1091fb1", "1109e2b"]),
(28, ["9d9deab", "0", "794d3cb", "0", "9da34af", "1", "4a3708", "39135c2"]),
(29, ["1f55e5bb", "1363da0c", "fd3e9a0", "0", "1f553f11", "1", "72894ed", "d181f58"]),
(30, ["3e026f6f", "0", "306f7b7c", "0", "3e0357bf", "1", "e4cb47e", "121fad8"]),
(31, ["4679a9f7", "20ae8a81", "2e93080c", "0", "4678a047", "1", "126dcae6", "ef061b6"]),
(32, ["a28faf13", "0", "724153cc", "0", "a290f43f", "1", "4c2abbc5", "2e609d0a"]),
(33, ["136cee407", "100498a8f", "ae5f0a42", "0", "136ccbc91", "1", "ccc72dac", "84369ba8"]),
(34, ["23e7abc17", "0", "b05def5f", "0", "23e7bb757", "1", "fbef56dc", "a91fbf58"]),
(35, ["41a76731d", "274480e96", "155500a81", "0", "41a78e13d", "1", "177609839", "1d4de178c"]),
(36, ["e9930aeef", "0", "41c0ebea", "0", "e99343181", "1", "5f70a501f", "af6d499a"]),
(37, ["1c04b2fa33", "cb6874630", "71169ba0b", "0", "1c04bcb97f", "1", "d9f61bf80", "44ce08d3a"]),
(38, ["3c6ffd87a5", "0", "21c5dd3d6a", "0", "3c6ff7b02b", "1", "27e37a117a", "c76c60c86"]),
(39, ["4aeaedf01d", "4fc3a77cb", "d1f32ce22", "0", "4aeaf69335", "1", "3e525d7cc7", "2517914f17"]),
(40, ["a7c04facab", "0", "538dc7292d", "0", "a7c0366e5d", "1", "18d9927f00", "41e01b6b68"]),
(41, ["1e20e2d4a0d", "1436e4a54bf", "18fb2efb9be", "0", "1e20e46fbe7", "1", "16f5f5bbfb5", "4869f2c845"]),
(42, ["2374c68e87b", "0", "211f6ebf3e6", "0", "2374c973263", "1", "18c8dd86fb3", "26e24d51c0"]),
(43, ["68b98a0aabb", "441f876dc22", "25eb7162f2", "0", "68b98f176ad", "1", "2113dfa4de4", "2d2c9c0af50"]),
(44, ["f90e963a4f3", "0", "3427b78f2d8", "0", "f90e9cc9df1", "1", "d9a2fd9d612", "1eaf81ccfcd"]),
(45, ["15ec33a8d4b7", "8297f60bd9d", "9606d4a55ff", "0", "15ec331a5cd3", "1", "10810814bd75", "6b032326103"]),
(46, ["26ff96a98d0d", "0", "1127a186f526", "0", "26ff967242b9", "1", "1b44c5bbadd", "f2c78b832b5"]),
(47, ["5bfd0746543f", "893c4be72ed", "58916fabe247", "0", "5bfd0616b32f", "1", "994acba37b1", "17e2127b1c67"]),
(48, ["f47ff6ac2935", "0", "2b86db64c864", "0", "f47ff855600b", "1", "1a29cae41c5f", "3a4346c485f9"]),
(49, ["19bb76d3837ff", "4c686da12fc2", "1d1d1aad66e8", "0", "19bb76af809e5", "1", "9b1adc205705", "51c5dd0b5798"]),
(50, ["211548518e5eb", "0", "1c309efcf8ba3", "0", "2115484b46291", "1", "bc109745d5c9", "6e07fbaaa99e"]),
(51, ["4ef157263e605", "2fc0fa4aa9a16", "16d5e48d40f2f", "0", "4ef1574b41c0d", "1", "930ce9ae44b0", "1fa5686ee2140"]),
(52, ["885f8432f7193", "0", "420fbd3e318b4", "0", "885f84139fbe5", "1", "3e1a217294009", "2b09cb0eee60c"]),
(53, ["17d4d3823860dd", "c6754636be8bd", "d708a70477e1d", "0", "17d4d38b927d03", "1", "7fe5017e8e937", "7c32b3fb51601"]),
(54, ["277d3665dd357d", "0", "2f660ade77159", "0", "277d3659bab20b", "1", "5f61e1236dc9c", "3498e7fbcaf4a"]),
(55, ["4cca6f4f8dd37b", "42470ca4a9bb3c", "3a9eba557a388b", "0", "4cca6f3e52b171", "1", "37b48e87767ea8", "5e6c330342a09"]),
(56, ["d3d0befd2a05bb", "0", "54cd0110139b41", "0", "d3d0bf16820d6f", "1", "8aeaae8d8baeeb", "5500c1531aa40e"]),
(57, ["1c190a7bd6055cb", "12598ff72d721cb", "177b7b042547506", "0", "1c190a796f65ecb", "1", "8e5481c73208e3", "307aed621bab51"]),
(58, ["2c39bc78f4f4f07", "0", "1ed598875e7da0b", "0", "2c39bc76fe35c01", "1", "388f5d43ccf320", "4e6eb659c3685e"]),
(59, ["7455fd70c0e7b45", "189d7d6481920e", "b033d5a0bc39d9", "0", "7455fd6c448c155", "1", "46b6d9c484727be", "aff2dc9b7cc405"]),
(60, ["e1d71122c341f1b", "0", "5ca553bfd5fd935", "0", "e1d7111bcc8f037", "1", "9d15351f97d2fd6", "3bbdeac334b49a0"]),
(61, ["16300f91761c5f1f", "5e7b8670651702", "5af961c18e07473", "0", "16300f90ff05605b", "1", "4d22886207de55c", "8949da9ae16007"]),
(62, ["2009bfb3ddc38aa7", "0", "447ea330aa200a9", "0", "2009bfb3a86e18b3", "1", "8dcfdba794da3c7", "1004c23b5ed7911c"]),
(63, ["509aa6158001c363", "3735209cd06afbfe", "3d96e556c14ab93e", "0", "509aa6169e3bc8c5", "1", "2a7ca65cd320c1c3", "233a9dfdeda1b84b"]),
(64, ["d6fe1dfde62289dd", "0", "92ed4fb6e3725b9", "0", "d6fe1dfdcb23d9e9", "1", "47d816d97a3dcca4", "33fc61e58c10bbff"]),
(65, ["17dce8154e72d79c7", "dbee4e3ea93aaca6", "f17734408ae8ebfc", "0", "17dce81529d3a1cb5", "1", "4b7a42d5f8bcfe2", "8e7b9d6267811281"]),
(66, ["3c1bce571f36d39ed", "0", "2df2e0ba4a5c33e6c", "0", "3c1bce5751090349d", "1", "339f69560c03e2d33", "5eba0b60e836c78f"]),
(67, ["42ca1446c33a584e7", "5e412c8e14fa37e4", "22dcee24f8e48f4c3", "0", "42ca1446ada1040fd", "1", "298891ba973468df3", "1463d40e63e8be077"]),
(68, ["e87242b4861922d2b", "0", "18fec35cb1301c1e3", "0", "e87242b4118e15e25", "1", "c5b004855e18064a0", "18ff167fb821a5ea1"]),
(69, ["1b7c44472fb9e46d03", "1595df4e41ac462ce5", "ca8ad81fb387d0e05", "0", "1b7c44472f7baaba19", "1", "ef0aa3ffc9c7d0e1d", "4fa0596520dc0cb68"]),
(70, ["3366f5c5bef548d335", "0", "eda70bae83830e162", "0", "3366f5c5c012923505", "1", "2d1cfa47a445ab379e", "7e18c921eff2c2b52"]),
(71, ["6df88c10a055ca5f0b", "1543cbb0c436bdb501", "62ffc3bd9122bcb3dc", "0", "6df88c1090e326f249", "1", "58a60546f267c3db12", "2da7c8c08942ce9d6c"]),
(72, ["e04e1a8f110657ec57", "0", "8e8d62a649815f0c59", "0", "e04e1a8efa77396065", "1", "a683b7a364d5613d3d", "6e059cd17ecacaafc3"]),
(79, ["6cf1019a5910dc24ac83", "3b517537da20018cc214", "1be4ab73820860574b77", "0", "6cf1019a5a4b170e1b2d", "1", "188b7b78e12eec829403", "1c00991c2fdb1f00fb4f"]),
(80, ["d02d14b2632d0902cca3", "0", "3b86d13cb47f0557c12e", "0", "d02d14b264122fa5b523", "1", "4703f51d248932bc1738", "52550c7c5b32c0588605"]),
(81, ["1e44b9f509015ab6a55c5", "1757aebfc5b9937555ac9", "f503f76173913ca0bc29", "0", "1e44b9f508fd69f52aa55", "1", "12a856c69630fab780895", "d6a8d2edc28b3b5b1b79"]),
(82, ["3efe24e6a5e4df5a379f5", "0", "2d72051b8c60faf0b726d", "0", "3efe24e6a5aae74329cb9", "1", "238d9d0f4e7a5e8dfa3a7", "17e4d70cd273c65218e15"]),
(83, ["4541e22378641abf71ec5", "35909e1f06902b2069276", "8c42d666442d9b1c58d4", "0", "4541e22378457718a0ec9", "1", "2f88f16c9b4236b39f9f6", "7d4743c46962bb9cbf6c"]),
(95, ["7f718ea8ac94a141916162d7", "1ed53e6ae48d6a1f1a3461bc", "c0c49780fef1008c9445bc2", "0", "7f718ea8ac94bf0c6f93f3ad", "1", "44f8ce7a2279be48180481b5", "29c1654a6b3f349ff72a6935"]),
(96, ["b5ff77cfbda4dbb1870cfb87", "0", "1624d7a89dc7d4dc118a2e79", "0", "b5ff77cfbda37e8f900e8819", "1", "453f13e682f313b87e7ba09b", "95f2a7ca73741b8bdee1206"]),
(97, ["134f33405d47909d3f03b5327", "101928b8ce5232fa8410b5045", "7faaf8ebe2fa5ad56c6dcbc5", "0", "134f33405d47b2c1b4f0de55b", "1", "4dfe43d926b872126c872f52", "75a0e77a982f8781c1d37c4b"]),
(98, ["3da884c98ff6acc245b6e7395", "0", "25da17675d0d0e8d2853d60d7", "0", "3da884c98ff6ce9a3923052a3", "1", "260aebfe7792e5f5740aa9cf7", "d4410498a2f6ed66900bda3"]),
(99, ["73843d1bfc95501e333398ae5", "4358e6be7cd90cfe8dcbd0c72", "5f66999d88203f21d27983a6", "0", "73843d1bfc950e3f1e3f7fee5", "1", "365774d937ea1fa56de25cdcb", "e0f939f302dfb4d287559822"]),
(111, ["4add0548a64c2ffd2e64dadf8103", "40c01fdb5dfcc8b311e9c883a9eb", "3036362facf53455af4247da663", "0", "4add0548a64c30d1089c8483cc47", "1", "3e90782619ac34464182cb07b882", "35e2661470f87a131b878bb7e22"]),
(112, ["c418516a19e9eef4ab4851bcc805", "0", "471eef3bf7d6c0ebd170b635ccce", "0", "c418516a19e9f017ee6b8e2baee5", "1", "114cb3081235047b1be531df6e48", "e8b276caac4fd02797a689d9bc4"]),
(113, ["1a094fea10f28d08f50f8c7bb49b5", "0", "146de3a0fc5b96c46934207b37c9d", "0", "1a094fea10f28d2355a23be558cf9", "1", "808d01ea7ff5ecca81191065cba1", "677ac8af3145e3a38fa4a4dd1ee2"]),
(114, ["2324f80b5ae8b7ae77b0a825a1a7f", "0", "a5916fd8778393b147ec8eee1265", "0", "2324f80b5ae8b7c8e9fe1dcf11cbf", "1", "1be63fbea1be1b3f03f336823d611", "44b3ac2a5b42ef35e0e60e749b4c"]),
(115, ["6396621b2133202fdfe441bcd72b5", "2ed7aa761006a9ee286d0ba18152f", "26aa62c3b0fa43be1b2bfd469bf3c", "0", "6396621b213320730771f5fa6be55", "1", "39baff481a67aac356e41c936ec3c", "1db9926adca2716988dfe92b910a3"]),
(127, ["7f6584932b08cf83913c6535b0faee6b", "4a888004f467c596f808f72eeac2db9f", "275fdbee951c97975056ae6eade70dab", "0", "7f6584932b08cf84fa64a95771a9fe71", "1", "6cb340084f8ed8aa3f2a195db212d1a7", "9999cbb8f7500dd3e70a2e82ae08278"]),
(128, ["87278b3fdd1a9858f18426b0ae445bd5", "0", "413b446ebe0c117b09d89d07512e3fdf", "0", "87278b3fdd1a9857c6e105b259d53f3d", "1", "5a43df7315e792f88c6f084af0649fe3", "25c3bab1da0704cbe11432302a2c8328"]),
(129, ["1375cbd41468afecc11b662949e4702bd", "e7c7469915210b4260f07f633329ba6", "826717d50cbc406f16ff8d39291a154a", "0", "1375cbd41468afece3003e9d2a3db56e7", "1", "b36cd75baf973cb8b38256afdc859221", "60f47c29895696b633cfdaaca9c021d8"]),
(130, ["3ad7287a3e01036d8dbb086398a0e7ad7", "0", "1e05f4f838b69902e7057d8671516643a", "0", "3ad7287a3e01036d53e0d7c034eef2965", "1", "191406330e96b61dc0f4fc46aa9e2e95b", "4067ffdbdbbadcf7e940a3c459b3b9db"]),
(131, ["706bc5d951a05c815f4e6b6ae21adfce5", "36c38f9395a78e955e629f5d9f2edcbbc", "f86b34f0acc0bdeedc576bcf958eecdc", "0", "706bc5d951a05c81b3edce13085d06f03", "1", "514d639f50c54231c4075eb7afbe6ec52", "170fe46b80006a8927711a7df68ee7b08"]),
(143, ["526489bd6bcce607b0148098c6aa394c2975", "3e14863e29d3d73adcca0b460e93cff93ea4", "2e937816fbec3cec93496efda685a70948b3", "0", "526489bd6bcce607af42bbf5195e72800fb3", "1", "1ebee8a8cd5993d26057b5b4c72e2540a8c1", "1a9a5259ef4b67c1fc51bb1f5942587291c3"]),
(144, ["fc2b481d2e0170081402560ab783d33848cb", "0", "967c8c9773100ed9016b3752c895326c3edf", "0", "fc2b481d2e01700813606b87e254353406fd", "1", "619de2971dbbce2bfe56b39153c16b0dae47", "5a78155ea29dc3e294d5015c8b586f6cd43c"]),
(145, ["1658fc32f5a64dfb6b203a9c89a5b79b8ed2d", "0", "939b9789556b95bce4bfdfac5d2afbd514ec", "0", "1658fc32f5a64dfb6b151783f73c10d153257", "1", "3430007670cdf371403050da238c0d47dda6", "7e1c1950342bb55830e59da62cbc56d8d78b"]),
(146, ["2dcf9b56008c2f7dc6fb4546db31a41d56da3", "0", "2a1d91d11e810268d00a17c4bc2c4643237f3", "0", "2dcf9b56008c2f7dc6d418c47fde546f1733f", "1", "2b448abd03b859d543c8ee89b2ce559b229b7", "926b824abe56e9365b7831930e0f4aaae828"]),
(147, ["59016874e544a06add1c91de681460784388f", "6761f4d29c0e674ef352dc6f8202c5bf3898", "1183e88576c72f4e2a1579eee2e54e480083f", "0", "59016874e544a06add50548474481561dae71", "1", "49b69653fcc142bf7bcdc7a69ed2c4e26aa09", "2687221b7256cc90e560c333f64c7d5ed2bca"]),
(159, ["6ce4089f8df4321246eb3aca3c6d9b72229607cb", "0", "1dafb4779dd63089808fcc3b6b4dd47beb586e24", "0", "6ce4089f8df4321246ea6f79b5a65e1fc0944621", "1", "3e94597f9c55c13e3c2f1a4946b216c10f575897", "1006ab566e3c1b257c93f94228456b0566f67dd"]),
(160, ["e4f39cc81555ad83b8de02d4155a4b4145054c9b", "0", "73605759dbbf37e32647c3b25ab3d20ad9884649", "0", "e4f39cc81555ad83b8dc27bf0be3b3aaa17ac905", "1", "67d1b44816209fac70fe2c4a99f1a5703f3ea841", "ac916137e5148efd55544615001aac603fc591e"]),
(161, ["1c91dbf6a6bd4e23c5992a7e23c2e360403665f27", "c20cd1842ee884d38c4d752c32ea1a73185f65b8", "1967a77f75e671f09b000e17319fe9a3077da4bca", "0", "1c91dbf6a6bd4e23c59900bef2624859160f14cb9", "1", "109092cb3e4bd51d1094bd2b2a498c864f340efe4", "378090232e3fb6b733f00983b51aeaec99e970eb"]),
(162, ["2ebeff942784c67af412d4048185d59c46da77157", "0", "e4bdc5f41b2fbecffaa403696d823b7b032e2aec", "0", "2ebeff942784c67af412c3c666ddd70f5d8107bbd", "1", "172643432f31f9d65b4e9ec69e0265b575758c18f", "89112e9fe752f9c2c38d25098e3e2c69ed9d1b45"]),
(163, ["58b3edcc52bcfc79909acc4ea71c5a34bd74c2015", "0", "2092f8149d7f475e3eb0a96595f348438dc625b21", "0", "58b3edcc52bcfc79909a91a1661761ce8f64f37e9", "1", "c0329b1751fc9127e9e71904fac11238ad699ccb", "15215c3d90a8453fd8b23a67af8dd41f8499f22e"]),
(175, ["650fb2b38a1423568b56c541ee4b4ced58267892e1cf", "0", "5bf94586de1f3527e7e7893a4cda1c3d69737b4a4858", "0", "650fb2b38a1423568b56c5181530f43e78b01ce74cd7", "1", "54fb2cf5ba7f1103e3de00f4f974af734ec19bf8361e", "2867604814f8370a5c0bfff01af41fbc300d6347396"]),
(176, ["d341613fce625cc6d82b5730e3881e1f87fa3b6ab77b", "0", "1e79ba3f5b46597446fb19d0e588f512ad7aa6513403", "0", "d341613fce625cc6d82b5566d8f1e193992378e30bcf", "1", "924f35457f232cede01c8987b499a6c0a55417396d55", "3ea4200609f591b568727c222fe7ea9a293e773a4e46"]),
(177, ["160fc290579043b3284cbbb659050dad1e31af4ba468d", "0", "a4aa60e0b6b212ad9be3a1c6403279812abcb1b8f96a", "0", "160fc290579043b3284cbbdbe014902cb8a34214c2019", "1", "38553346f8b94dd4bdbe53a1749bda5010bf58e533d2", "97a62fbc72be4d88c003f2ad4b329dcc8b92ad2f1a3"]),
(178, ["2ddb3502da456facb3d60180dba2c67cb1efb247e35dd", "0", "2563eb7b65ac58a9ab4ddd7ef92f634db83605b19231c", "0", "2ddb3502da456facb3d6015ebb2dafc3a8a6dd3a35257", "1", "2a650a2eabceb62d120293bf06f381a8c52ba9466b63b", "11b6ab130d402bcf1189ee5ca28e57571076333b411b8"]),
(179, ["578ec229feaba992ca6def67ba007b849b450b4b25fe3", "0", "5209d388fe03366e84d33eac7d24ba2935e853412840b", "0", "578ec229feaba992ca6def5d8d732798d687530d03efb", "1", "408fd272ea2857c6292277aa36d4aa144ab8ca319396a", "1b7979b2976115d1b7c80af5f727830e133978fb9696b"]),
(191, ["7bc5120e7bc640a033e87792a5c9c6505806e2879d3545a3", "589b48fd6e7d58398f75208c33fd0dbb22263a51315bd47", "dc273b99069b7abb90ed82c7e5bebf14f30ada501fb2e86", "0", "7bc5120e7bc640a033e87791ae1b3b6a228a1f444feafdc3", "1", "31fdd45187b074842b7f4b3c28c576f5291344760612c8e1", "22b40a53e5b1bb4ec5fd7838af13739d9bf721bda8d08781"]),
(192, ["f0fa5630d9b7cfde7745a805702dd194466a797443c704cb", "0", "f0a28a581f23a786aa4a3513168e87182504554090070693", "0", "f0fa5630d9b7cfde7745a8050fd5bea2dfa6ed9f5df24239", "1", "cf07da17592b3ca623dda48aab645319d2a71b947c73836d", "2f824e225facb3b477804ae95c5b67222b496009bc59267f"]),
(193, ["1c5d37ff8f612427bf923a9bfc0f65ab9420c4ba759c7174f", "1154fc25ea1c101807a435fa3f64c95ee8b200cd386e1bcdc", "1101780079239d20e20fc8439287ce1b12e9979115db741a9", "0", "1c5d37ff8f612427bf923a9c24c9144ce441e73362ff9eee5", "1", "14c517f28e0b45344dfe81832b28ba4644f0cc2e57fa63a36", "c7fca71cfa00a9321676247809b6fa15f87c24d559d103fa"]),
(194, ["2977bc6aab3f3f22b45fe5148f19b1d40121c5c5c449c1c5f", "0", "22330a5b417b869a62070eba84785120313e726a533fd5535", "0", "2977bc6aab3f3f22b45fe51484b25448046252a7546b4d5ad", "1", "213ec346e760ff09afd81437e03c2640fa15e908c40c0cf6c", "1215450d35c07b433ebf0aea207e9ce9581bce8197392b152"]),
(195, ["7ff9b6f1b3b3a037e74bdf44c865fd15db31b8b4173313f95", "0", "46f02e3f31cf2b16b5d74e25fb253531b9c33479416747a67", "0", "7ff9b6f1b3b3a037e74bdf4474f84dc659de4b5b093ae3fcf", "1", "e35667951ca64b56d990aa0fbcc4a329c3c1d3671094c536", "54868ef7bfba6deef47eb66f329f942c9b5b740913b1e7ea"]),
(207, ["56ad24c7160ac266bef34c1b7f424811d56eca426cb75ecc0823", "0", "2c9aab567cdcc1c68ca00ddf1b63feaa1b385c6765f40dd8d7cb", "0", "56ad24c7160ac266bef34c1b7e51628a129dc36e7d485bf0c639", "1", "eb7f9bd6a4ac58b6557e99e50451bc2416405ff364fc9d242fb", "2387a5420be2a8a58bd86f4e9e1d86ba3b0e5f1fea392cabcef4"]),
(208, ["e45508c22dde00b11642dcaba8af6992ead01552f744546d53cd", "0", "b49a7412c1518f2b0120a0db88945d1283c850a36eb47037034d", "0", "e45508c22dde00b11642dcaba82debbc5e7ac4376c5c55781cc3", "1", "c706ed8650205e7580e910a8b663885381eb0c75aa9eb8a43146", "570ecfbdbba7a10815ac691c929d960a676c9caacfcd72049dde"]),
(209, ["1103c7edef4ac4921efa01d5fb5a707b7ff43440b40084ff8564d", "e0072d6a659cf3052025958e9fd46054500d01472c7de77b04dc", "aaa41b5325cb19cfb56280d8267b89ccd552fba1a387a63d6be6", "0", "1103c7edef4ac4921efa01d5fb48ad2a4f5a46dc084d495331f55", "1", "bbe37744d59d81accd47ceaa08ab8c2c32660ae5ee38f4599b48", "597648562f837235ac086d106caba3ac466eaa6baef7a1012c5c"]),
(210, ["25d4adaa367e7e733fa9e12339e0bef4f4a61086f5505707b13ff", "0", "b4a1bd86848228388c0abf32379006a51bc3ac29a02bb596e2a", "0", "25d4adaa367e7e733fa9e12339b5fd6d78026289ed4e0b210ce43", "1", "205c37bff70da1e9e96d73c3ec425d54f5cc9b63f7177fa656b66", "4be9af63e7561830624d24bd6e687bdc8b625581d5e49c3ec622"]),
(211, ["7b54e195ddfc2e5b166589b010eef8cdf214b26b821b56d61e743", "0", "5dd43ba9c34772d53b0289dd38907f1ae78daf4dbce4681c37f4e", "0", "7b54e195ddfc2e5b166589b010be00bfd2eb9e8023441872b3873", "1", "7a19c36055ea1db36fcc4109a6c5fde29d0017e334fa5257cedf4", "1c60892a58d9e50f8e26685441301ed3e38bc5b982e361ab3583"]),
(223, ["494f28a68d5f4dfcb60f35e906cc41bcf1b091e18666c709586b10dd", "0", "2d7c5705aeb09ec3a63ce0fbff6b30edde58baaa36ab0084e229dd8e", "0", "494f28a68d5f4dfcb60f35e906ccd36782cebe757652b16cbc55e70f", "1", "a14b36d100053ae690ed5c852286db8d93d46b3e59b4f017291b773", "1e77ee54096793ed1efceb46e9dad52c69f8e6ff9c0c1be3e4bd1f59"]),
(224, ["d8567bd2a38e4a77d050f8916b491c19a3995683899404e44530b643", "0", "6cba9aa5ca5470be7683dcbc900b86d54e3b8c36469f059e85e727fd", "0", "d8567bd2a38e4a77d050f8916b4ae11745b37859705f10283b4a167b", "1", "473193ed16924312e2d957507315b2d4561eeeb4bf935c4a0dc8e460", "26d5d52da6dbb0964c76bab94f12de185f174a819cd805769108ff41"]),
(225, ["1fe04209c70dfb377807aa5b75963f260f961ee43aa57defb6c4963bd", "0", "76797052f5e1eade01ad5a0d1ed0bccf3fef8da233fe3aed0160e115", "0", "1fe04209c70dfb377807aa5b759619beb54693b5775d129cf24cfbb05", "1", "6aeec27a3c7d98768c9a8ebda98eab59fe32d873f627d36aaca0ea56", "d8c8b5b8b2de0e3ce217a1e4924fdd9822379328ca7ad3eb06601367"]),
(226, ["3b27509ad40d67d7bd7ac83bc5431195314e17f44f1b1900478f17f6d", "0", "1d6f53508874d4d3badbe4b4fd71a95e72d1eb78a0f8566504dd89e32", "0", "3b27509ad40d67d7bd7ac83bc54326ab633fbada09a2a4e5ff3a5282d", "1", "1cd1b3667fbb5ab3938db69ae88d95291dad463013d3483cedd630c9c", "11c41c751b633b58bfb1293c45690dc6248bea12c4e8e5bf86a020e28"]),
(227, ["6f0f69a3a8760047f1d580e58c3abea3e7812fe8d6c22fc88250a7555", "2e7fef8503dbd911059ee110cead4ac160c978c2f1388c4a5c5d910d2", "6f06f8988f20133f95b4cfd312d6e4b810811ed85c15b9956353280c3", "0", "6f0f69a3a8760047f1d580e58c3b1193824ea5d46563e21bab443ac4d", "1", "6f37ac7ed7b2e7f523c986ed9dd40ac06e097258275791499cc488d3", "191661227c5f5f71e3a39fd85912e4a4bd77e1b41a542109dc2669092"]),
(239, ["6bc41b776545e0c1fcd5eba83a52662e870e673e8c04dda4085a3c7445d3", "0", "2517bdf83fd8ed97a4b09b003dfdc47bd321d58d3a16690224813a7f0cec", "0", "6bc41b776545e0c1fcd5eba83a526529217dabd987dd658a647c331bf8a5", "1", "4a5c30a92e1dc61db63c0030c4efde97845770d902aa856a08bee588fe64", "6b8ec095e424f6d7b94c8eb1b218e79baa3cdac9424d481a283d1c1fc52"]),
(240, ["fc5010f8bf2764c91f4421c7b305069a27efb72dbabe21b5fd925f031aff", "0", "31351cf6582232d1ce960d6b060002a8195bec14f113f7e901ec90a4b24b", "0", "fc5010f8bf2764c91f4421c7b305085f49dda50f1300db3454e122a972c1", "1", "cc46a69bdb05aee1d393efade97130acdf7c0562ee4e3fd0b22c79f95c13", "553a6247f431476bb7db49ceeab27f67c3c3c9b45e348782afbfec3443c8"]),
(241, ["1045abe6179f68a46a84bc461b8b53c1a515e27c0dc40994106cdac861c1b", "2950e14f8c0da578f0d17b2aab5be4eed9e3a60cc7e883290b498d784739", "beb8c37a096ff39eaa5194825def443e2fb85f0427398acfc0b340035d92", "0", "1045abe6179f68a46a84bc461b8b53afb2878b88648bd370f037ae70a6259", "1", "d31d2619f96013c820afafda5110d31a89d2ae21c60008c90b2f38da0bb9", "455d52ff90b027d9e4c66a8e04db2e8467c110dd588b78263740667e31ad"]),
(242, ["3d6d1de769d5d3446fbc42407b0c87cf8390071bdc345e711d266b75b4f1f", "0", "2fa458140cd57a2fa59e4112c9fc4e82e42af507bdb693c6639e7ca5d83b3", "0", "3d6d1de769d5d3446fbc42407b0c87ee0b1816e6b976f02ae347339668c0f", "1", "38f5395e237a5bffbeac5bd94e1fed184820ae8aad3de8e3de460e38f1b89", "128199cfa6f2cf22a97c42b6db4f81a5ce6529fafe3812b2bbe4022607c3e"]),
(243, ["572f324e352554e5fa58801e1498ee1251e628b16f3851487b146425b9615", "0", "715b02b4db2c011cc78fd83b32713d41bd328f1d8470d847b37a72bfb11e", "0", "572f324e352554e5fa58801e1498ee5c6c48c686490de454bd036f2204a4d", "1", "22c1c0ee7f00e71146eec7b38775b0824a00c9b0b8607cefa7c739510c061", "164f23162cc24884e20eadaa4c767cfb3b023d5521892118bb263d33beaa5"]),
(255, ["72a83f6fb61865566afddd0f9acb492443c1b93b0c6a283e29164fa084927c65", "0", "d7397a773b1ac635a5b37b93ea7d663ed43ba3976d2f4d8ca0428c6cf1ac09", "0", "72a83f6fb61865566afddd0f9acb492321c2fa7cae627242060fd3f79577ba21", "1", "61badfa5fc5dc8d822e16ebcd282d1a29b11938bc1afebef0a119ca50bf50d54", "5455bf726fdcf8792133460b19debe3097da297e9ac140db92480bdd201baa4"]),
(256, ["88c2b7b7893a299ac16902f05aed2758e43b351ad2914b671c2ba4052438c03b", "0", "5dc1a5d2db93c730fe118b4b89f3e60a6feb8196e9a46c760cefa6e2e1abb29d", "0", "88c2b7b7893a299ac16902f05aed2758255b8c983311a356bb5c777f97efdfcf", "1", "659ecc2397044186e676cd0f92b15408951268dab91a7d8ad12b856cc449fc9", "3ed01df976097f74426caa05340b64cccbecc465fa15d69f8ee8b1510cb8044a"]),
(257, ["1b07f74932dc2243c96b8d5054b9a57610ac24afe3add04077410e47a0a9a0245", "0", "6d0545033c0215218a45670f83bf9eeff6c4a63b88533d9c60f31311a512fdbe", "0", "1b07f74932dc2243c96b8d5054b9a57608fe770a51ed4a94827ec005bee5228d9", "1", "ef30e630267e9a98b4fac805b81b5e52b096142837b84d0d3e9903e47fb8f65", "b719b69900fe16b31e828509cf8171dc0d823ae7c07ca13c2fcbaa481ae8c646"]),
(258, ["20bcd39117684803bb6e6f65aff4ac6fc1ffcf28bdb79a0431a82c05beaa1c5b5", "0", "1b6c780c94df83b4f1207c1bf499c0ccfdd75e6dd8dfb84866fd75a9ee708c2a2", "0", "20bcd39117684803bb6e6f65aff4ac6fd2952202ef9b48003138f28274402b5bb", "1", "422cfa7e1e2a51e0540f82d580bfe26194ee16cd31079189f0ea650bc81d4d01", "11e112d61a79c0a45ae437049ccb48c26386a13db2634bb8469ae8cc60606caa"]),
(259, ["6c89df8c72d6d8a3f888b730db8cdec8163d0244a39b924275105dc1d195dd133", "0", "4d221be7bbd90c951ed14c3755109666f85fe99b057400ab20439cf7a76f0d45b", "0", "6c89df8c72d6d8a3f888b730db8cdec7e7ac476be961de2740e9291610d7ee53d", "1", "3df9818806c66d26f75e1b96011dd046ab0304765bd52c18c334f24677095cee8", "87741a12ee7d33dedf2b77dd724b9b2d5950e38fc1606988eb8cc458bca6d2da"]),
(271, ["5a33e331ec375ed741929d4d15e0ba092413e2c8d00a7f85b19e3ffd717b5dfec043", "0", "4209b30765a0290bddc1207e71099af5ee4d09f3b00d93795e3b5d078f2143a92486", "0", "5a33e331ec375ed741929d4d15e0ba092484a798633c6dbf902fc032d99a61187f07", "1", "379bf534e4a0fc14bb64f8c16b20b902499b5e7d6a80366a1478cfdfbff44e21b686", "203103182e9ede80932bd9bfc945e87390e3094a0050dca65d6a0169989f4f18d269"]),
(272, ["c8890b61de30f58457a21fe113849edc5d7d01f9639d07ddc5e49d861dfe2aff038b", "0", "b677e8e79de80a9358e7342293fd49c2ad48ede62b4c222a3b1d31cdd11684b60f0c", "0", "c8890b61de30f58457a21fe113849edc5e63cb5df567a4c7b903a1502af7604a6443", "1", "528b9f697372a8591af37bb6e3b9f0e9a5909f27a57ef806fa8f198e3d7520c88cc7", "1a7022bfab49d691ea27a690d038598dbab0f891af917d3bfbabf32e7978108395e1"]),
(273, ["1b9c927b733da9bf95d32c4b4958daf8c99582bed41a66dd9e05a46bbe7890d213e57", "0", "1a612fe8048ab3c6c8452bf66eb04b2790eebe6582f4e042bf65e5c332deef102ff31", "0", "1b9c927b733da9bf95d32c4b4958daf8c9ba7ced3c5fd816e4b85b9aae21ea29078c1", "1", "ecdd5b77cbb01b34529bef9946c82fe4a5e32afe275ecb39883cf186e2ce24320522", "9bac4b6c4248bc1a4b1f36cb19de8bdf2ddfe4f4d90186834193d4a6f6ae921b5ace"]),
(274, ["2c0f9cd984789801e12c95299297d461c217988525520b83aed20de2ffd2503fd6925", "0", "2a29c0d9fc6b3cf2f057696c5f5f09a89cd0d07536e86074566c344eca4ed1ca170e4", "0", "2c0f9cd984789801e12c95299297d461c1efbb0443fc4167f42d10c9e3dcb9795f075", "1", "24e29d17c6375245c059c3ab9b752b7cea6ef9c0ee807919677a35ab36fe9bf7476dd", "8615cbd44bad963d67f0a98eec9828f15a1b9e1e5b672793e31a03bc5a2786ac26af"]),
(275, ["785a6461109f81e525cf5bef4f653e074d7237ecb2f0dca92f827bc814cbed94a6c37", "0", "2ca9dcf55901b06ef7e3b005c86555ffbcb3ad9e4b1c4af796529cf123f410a98e2d9", "0", "785a6461109f81e525cf5bef4f653e074d2db87a5086a5091b0de0ebd587c8558516b", "1", "200c52c9cb33b18969a77184fb3a83ca755e93ead690b1180de105c011bbadecc9a07", "f727a7a1d23e1865ef7110c40ff31bd6b399fa936ab29bc677063ad7ac3d422d86a4"]),
(287, ["4439eb3cd4bcff3928c0c4f4fbfc61d9a47a8c015a44a7a57421409ebfa747829bfb6ebd", "0", "26709ec6eb4502e8ebfed813472bb89d2a486b306921913cabc3d42f6ab46c1efdce897f", "0", "4439eb3cd4bcff3928c0c4f4fbfc61d9a47987a7ae25a906eeab56d16143355f9926ce55", "1", "32a5de77960bc6f2d4820670f2022d404bcf2b44bcbe38d590da7a92325f79921409316d", "1f76e3b9b8091e332f5e4fe3b62b9c3391fa6225732bec037f39a8229f27e384e3a38ff0"]),
(288, ["9db5005d87f82ad1f22d2e8ba0e7006ec86f7ab29f7c009e290a5a251ce6d754d4a48ed7", "0", "c29b691335e3639fa32b7f21f613c7a23334df809a85520ad07718adaf1ceb63a6454ac", "0", "9db5005d87f82ad1f22d2e8ba0e7006ec870d710646660ed88a538e0ddec87068c930b01", "1", "87115dfade54bae626a146297e91fd369cb3cc254bfbd5c9af407fed6cdac7ba45aaf305", "fc82dd9aec49e8bc9ad862489f7f490673e113b4f40bfdc3e0869b264471e7d571f68e9"]),
(289, ["1bdbb94a55952a7f13802b120c7209f1f907ef3ee92589dde5fbe48256a070b810d36a54f", "622bb4e027b3aa93f715507da654a7c5da65745b1361d75f20ce4a1bc935bc18ea5bdd07", "4c5fd0b3dfbd0091fb3940d142e188d1c288e95cd512852eb191c080274ae195d4d83772", "0", "1bdbb94a55952a7f13802b120c7209f1f907dce7396f92bfbb2c8130d2454a0da002ec86b", "1", "63942dd2374717743d984825095d7fce4ff7d978644ebf5a8311e9744362a9ce92084b99", "49d1b220365c687a901a85cc75debf955bf8c484708003cc381c3d89be50c00d8bd8f50e"]),
(290, ["23f4238f0b4ce2b42ce40fc16d007175df67fcae209286ae124260bf99b20b7f3ab26a2cd", "0", "1013a3be430ece8bb78b79b9a2bb66366aecf0cced9581f5594a0ae1f95ca7297ad35fc2b", "0", "23f4238f0b4ce2b42ce40fc16d007175df68099e430ac5036e1b1baefe1ec02680a1ed283", "1", "f31a732af2d768c595770785ac390064d1b0b099082fcfab0bf641b5372412d9b3d82b93", "92752446e425fa69773a715cf655f95ac09e4d62329fe5b944d67fd838ea3571c5b89d34"]),
(291, ["73eabb7a479c0d0776c362fe9042b9f80f20bb0042dc7f5ca7180b910cc6d252ed9ffa89d", "0", "bfb67bb054a4abc28e516b1245c5ddf615c835d691b975e6f928429f449efd499f7d925e", "0", "73eabb7a479c0d0776c362fe9042b9f80f2070085254efe5cdfdb1b8f890c72e077f8f8c1", "1", "6fd19a727075991b421236e734fbea69825f891c2943021e1b323951c83d242201feeb9a1", "397d12a18b5b153032d3fe522d0e280dfa9821457d0fd5549d4a871adb0af90c729489cf4"]),
(303, ["4950b1f1768be2a1acf8c294221346a03848d838549a992953b4afd5fdb3205ecd7e71d02383", "0", "430358f480331c0f9888b6aba4edaab1012b44865b7a15ec3aee396987c9f237b6d12dd2f56b", "0", "4950b1f1768be2a1acf8c294221346a03848d858b73971b2ae141240fb3f84441472d0f2b55f", "1", "291a03872995773b099c3db150413cc05eb66ec5bad23f5179bfac425073d7e0ec1458f86310", "96d258eb0567c5c43c1d706054bf721b2e8223bd06876030328b45d902dba55d5dbc86dbbc7"]),
(304, ["b33b8e2f5c1bed27d0aee89e06bdeffd4b3bba1cc4057c1dfa22ada7191cadb53745aca8b645", "0", "1635deaabd3557001453c2fcba66305579ce1ba08b5718e7dd2c0008c341fe9d7b678229b0b", "0", "b33b8e2f5c1bed27d0aee89e06bdeffd4b3bbb31e0129069d928de5ec6779712c7058c4842c1", "1", "2a2db33a59d6bd583dc0b4a222de9a7317c1e6e8502279995c62a991c468a6944559f4b565b", "429f6837916f29175f396da77eda652af71f1e70912d6ea80d55aee3a391ad2a7dd94f7556a5"]),
(305, ["18b1d4b731f00e8960c7280649a91e72bf4a3eea452feb75bb3378da0379f0f7fc3bbe33d587f", "0", "13b3ad2c1b47d9f175769439bc4a03c1c86fce2321cef9621bf94ae084ff2f831de4017705a0a", "0", "18b1d4b731f00e8960c7280649a91e72bf4a3ed99a5055eb64d2c7f89ee19e0f05f91e03281dd", "1", "172e1388ac803bd9eb798c0a07b3218a0fb196fe6067f5d991196cd396e8e7e5385f1eba7c56e", "25b87cee96d5b611c3e8520f14e5f1760b39fa7dd0a6e6b6960432028bfaf266865a6fcc6607"]),
(306, ["27e9d3c62a7057f0a3a1f2b112dede58c8f97cea59e710ca719446f3183977320673f53fed38d", "0", "6e106d4906575178a9fda14521d9ac664da650fa9d4e1cbf5a1b2ce51c1153adfb83ae85b6cb", "0", "27e9d3c62a7057f0a3a1f2b112dede58c8f97cde6aecc1c879351c6a780f4495fee5b177b4c79", "1", "f31e040e7e0c145a894c982a857c6963bbafdefc16f5c367df8a2f06461afe94f6be76171136", "c3232b66906653aed556f7b60ae70e5f07ad4df020d00ff38524e8fe775f4202b4ab863c7c12"]),
(307, ["73dffeaf0097fa70a33aa1dbcbc0826e5536074860c63611bb8fb7d2e6ca2e87fa51467320ea7", "0", "5cae45c6d5b0eeb9ac1ae59786239a3bbe6c1c7c69eb1e6705f2117e12e19a874e8db961415b1", "0", "73dffeaf0097fa70a33aa1dbcbc0826e5536078e1a74a96f35a08ab15b5ace01a7c3a599f3a8f", "1", "3b37ca3d1c93cd1f2d7a0df77b7205c285d8531226ace4a82c040ba9e8d07be0ab83e6042b4ed", "3641e44ebb7af64dabbe45a49cf175c9adf708beb35aafa296eef655d215c918fb6b7dae58e2a"]),
(319, ["4569c75abfb68013ddd95413b15213c2ab20d3dab738c2f0563ac4ad08bf448c1b1c2c7490a0478f", "0", "2133b6a28e7eea68bef8b42705e18791d6345808072bf01f3209710593dd169cfb56250bc47fd4e6", "0", "4569c75abfb68013ddd95413b15213c2ab20d3d9e4430646932eea3da5b293dc0c1e4d241ec87d0b", "1", "14d4ec8a3e3dbd311d5a0708e8a26bef910dfe62981ed69a988508d9c42317c8cc3e1dc1d03f43f5", "15611945528681a55b9d8d0faccd5e8d44706ead58f44d6b1e9d4899876ba5b5116154d8267e0640"]),
(320, ["9ae11e6d836283cd0fb1ddf252a7fdb139494b5db1a802799a4d6d773b747b845f5d104d630afdad", "0", "5d9781108debe5227aa26a1d7fc270ebd8236664ca30f722993b594d76e33d554fe3715da0d7c9ba", "0", "9ae11e6d836283cd0fb1ddf252a7fdb139494b5f082c03b0477991e1b7095ab0e95cd1033112d2eb", "1", "7d856821082a90d4e2ee864f767a29095e00aaec3a9a3cf3fe69006eb469ad2590dd46f8773a67fa", "264807df0798aa407d2400f16745d1b733701238cff2a4a59da3e748126d5e513ac108b44b9125ab"]),
(321, ["10e25d05deb8c9af7c609f762f0751ad101110ad6e2af0b4a19e9714ad1e38d89f7d6d06ec177747f", "0", "de69f65bd6ef40c07ca83b1c9e27a64e79b7d5b4d05abe91673a0f680fc4da07352a2428b8246406", "0", "10e25d05deb8c9af7c609f762f0751ad101110ad77c01d5462ce3c95745b392e055dc5ae9d368a101", "1", "10a491d1c0e385c0e8225b5a94b7cf774abea798c3ba64e24a87696b350b874df909a4c84c5fa1c70", "4b90c6b1a16879a0f602a495727cbb2438cc0a18151453f2e0cbb8ea28e17bcf034a17020f4a132a"]),
(322, ["2d22d9c6468fb2ab3d83b0eb08fe9d0d396857f74b8ca4b3a04ca11add6513cda58fabd38ff3d0a63", "0", "2891dc249ce7dc346a84a2c62c3d129c8c741ea85e5d97f960388e65aeee25ec093c8248a032651a", "0", "2d22d9c6468fb2ab3d83b0eb08fe9d0d396857f72297f976e775e0e83044d25cb7617e2a5d2dba00b", "1", "157fad652f4abd7ee0ad291728ce591b5e42297c3d0327e4097176234efc4a73f04064ca39042e049", "c375796b4e6696e8f46bf2c5d4a12b21e3f669dea3b5c137d9195fc54dc85b74d911b59f4b235d46"]),
(323, ["70b79cfea1dd109207ac3535f67749a6297004006ba2fd41eac47f6fc46aa6a039a51d34c2311323b", "0", "6c4f8819e6bec29c81f8f200877a86e3307de1509e25bc0e1cc73efe0e347a6941d13ea94cc0ad5eb", "0", "70b79cfea1dd109207ac3535f67749a6297004007999788f7c3b3a8e89ccc505d068ae17e798c7ce1", "1", "33845332945f5a2fa69ddb629163616d587d266711e8027e09bdd6d96f72f5294a82251a0977c99ed", "1b9bdb4d1be99efd9d6fdd55a2df3c6d67f7b880b559721e5b6719e6c72e42f65e87e28f449b1bcd"]),
(335, ["74d5f69eb36c84f60b5c869aac15b786b43e8f69db7e04232043d1364a634615abc2db68d329f9c2439b", "0", "176c90158c0134d6cf048aded0e0f886e177d0c829da02c316a22b83df24dfeecf26a5abeb45e4a624ab", "0", "74d5f69eb36c84f60b5c869aac15b786b43e8f69da597b1490a34e269fc3b6cf9b4113b13c5a411afc09", "1", "666b24725c8a4b4e1d3d5a9ebbbe5ee29094ba7ce183c6cc312e3ebd82ac53d1270bb8f17c14ed24e689", "bf6b343c3637dd6be5a81a45b4d491abfbc51b8660933948a329515279cfcf428045b206fbed383982d"]),
(336, ["dccafe74456d03fc598f0eec574f51c9f81f05e960aa0e36f40fbafb681bf821e77390cd7006beaf9da5", "0", "463587aab0b12b35e7d45150e858c2f092965d2bde24c6644eed150bc7aac8dfae18a1455bc70f7f6937", "0", "dccafe74456d03fc598f0eec574f51c9f81f05e96061836d32bb5734aa4fc7f0c2952db81002c8cd1a4f", "1", "64ba9250f4e66f58288d51f014d4d54a7bcb8d62b0f6ee23e3217591c545f52cc80eb75d7a4c73b75e97", "bc1c25b49a843dc7612dc23d0eeb389332f42b254256c64f45169e0327a1f0df9121330f09adc011c3c"]),
(337, ["1e1388d273e07edb682ad9650f6083bafcf9b04d24f4c9e4a838cbe799e4c9f3d98b4e32ac108c2044865", "0", "1b04b73b396c05f8098a1322af76b2025fbaf48f37f8d0b069416eededbdb17048965d65a85ac63d6a349", "0", "1e1388d273e07edb682ad9650f6083bafcf9b04d251dbf0ee9d1969ece038b891f1db5cb91c17036d5351", "1", "1918ef897ee30670b09dcb5008d783694e14262e42044c714048263ba26098abb9f6d85a88d3698a8f213", "1ca30c62804535b4d3cc74b0908f0bdc2924f2bbb563af7ca2fd06f8c46a812728267633ed0c51fa2fe7"]),
(338, ["22ff687dd90cacee3f4a1b7e11e784277cf6517904eefb993d9b05f8f01fd252165f54ea4c7cc81bab58b", "0", "dc8831fa0910e06a46c68d4eb228d06155c7089b9a387b700b23c23e47731ddeb594c4b9b2bedd8f775f", "0", "22ff687dd90cacee3f4a1b7e11e784277cf6517904c6170c63167124f7a384063db9a2b80063bd2cd0e2d", "1", "113a7aa3b3a43826f19dfbed0349b516c6703ce828400f9594b08c77a0057f2a69ec9e5330579b020e622", "b32fc99d862d0080e44ebe64825885b057ca4522ffaf1be72bb8126780983f7498a3fe8d34e1af03063d"]),
(339, ["64329644a1be983fca4df6b10dd13054a6dda6319dd1f99f15cfe9e1da6efc0fc036b5d36b54f626694d5", "3bfab0599279dfc35cfd4f908706dfe85494d7b0356368c01eabfaabd7ad78b9826a22ee1d0d2c5017ecf", "2284423a4a184974eb8b8a09ed39fc2357d45e80fc02ced454af3ef17ecd8ebba316a92f133a05995a9a9", "0", "64329644a1be983fca4df6b10dd13054a6dda6319e21de70ed9f5028794475e2df82fe3952d0e62ad2307", "1", "1ffffdd2ba8efb2cd2355646ac818106adf47555d35ce7e16c9be740c3ff525d7c669545e1628e9234411", "11f43d1981139c6b0046bb9faed5b81e14c2c61034e0b19400a9fb004af87c081e68754a78eb215956cef"]),
(351, ["4ea6013bfe22a58acae9a977a8b6f79e90badf1e1ca3bae8cbf75d7fb900a0ce7cb52b5e381be3dbde9d9bcd", "0", "30b47bf0b4e52a7708a0851584c30f705c54098037353de4362c1d0a6a0ed308b0637d40edd48f2b540291cc", "0", "4ea6013bfe22a58acae9a977a8b6f79e90badf1e1ca35d3ea955c634fceba7b6b50444ea8a5fcc48e013c2d3", "1", "372d98fd2bff5104488db97b14258d4c920fb8d91a16aafe9ab2a7f3449a48462341d117062a35ff2d7d18fa", "15014a5b715ce088e6494f36e9655e4f7470b7e4d65c3f501d574de3713d958d57482a1a730b83a46e3196a1"]),
(352, ["edcd5d8591598ff40f664436e8ffa3fc5aa37ed98190957de73a70c7df5086df39915d40bb88e7f8738aea33", "0", "82ca3f76868db9b7cd2ce28400c2135a4b73b4091e8a1970fe802bd73437f09c8f9c3074864a5a1ffcb2e85b", "0", "edcd5d8591598ff40f664436e8ffa3fc5aa37ed98191fbe6aa3303ecf089d091456f24428f963bc8756bc37d", "1", "71aafff393a19b499a6aafc99fc32a510f5f1bbed796b7ced2563fb9c9ef53c5154a0289963787aa3004cca1", "49593c9e6573a954eb67a799ee08ac00c487233c274a3c7b7e2d91cc3c7b2dd37d9f26edbfdfb7148a89c397"]),
(353, ["152cfbc68ee817a6e869f1c5877525be42c20f9c53e61c5861b2820c7d916f129adc873c390ad5a7fb871a8e7", "0", "dc2f7b951452006bfe76bbd753cf3b32f4c26a4110fd5adafa9fcfcb7d1b62601d78dea04b8e923bd8411df", "0", "152cfbc68ee817a6e869f1c5877525be42c20f9c53e61794a79aa7a1b2f7e219f28e052fa0bab3b688ca40f2f", "1", "4c7750560c20f189d4c1a99ff67ecdaa30e1476c0644262cfd1d3a7d4fbba5f62219685352d864f0c05d0b94", "5dd09bf20c6be23efc4238b23046209ddddba2c830bfde9ae871cf426912cc9191ae8d20133a467ae00844d"]),
(354, ["2f88cbd968f71ebb45e56110532552d17360aa4a909a38b02bbe3af1d9de52e01e23e11408a220f7e9b80e7e7", "0", "2f627973a0a28cab3f722029236d25be828ac8808227482a5dbd620c037e553231bbd66ee0e8e9eff46db7a3e", "0", "2f88cbd968f71ebb45e56110532552d17360aa4a909a048a2df880a573daf5defc8cb04756a58c0a0d0838ff1", "1", "e0f8d8439b534463d0ec95327b04487a17553a9baff3b906471c126bd87dcff1ac690f8bf0a2ec67cdd9f36a", "d155454f9d5e58c97143776888df2a356e484395ec371bb51a1fdac173495705c870a1737a1730721c168a4a"]),
(355, ["6a26bc9297a2621f5a4a43303bd8d2b02069539c5dd4eddb034d6b54014043b0a62991dc3d7e8ec5fd266e6e3", "0", "269f0dd0631bf2c934a705779f94e848e3cef19941c8fc266927a35728021453c6759a8744762fe44086d9e03", "0", "6a26bc9297a2621f5a4a43303bd8d2b02069539c5dd4b9cbb25da7eed8cd76027b00b3a0a91ca7f926dfb37c9", "1", "5740bd707c6416d3a0367312a9fbf56cc219579a1a9bca9262bc411058102dcf70198ca83ec535eecabf76786", "12ef2dd20c2fa4d9a47ba22eed4e427c4eb7a4717572e846acab8bbe8bac31ea58bb1d6d5aa3269167aaa4498"]),
(367, ["5e8782808972eaa81328f21cafbfc6f243b3aa4669dfc62c6a0e63adcea930e1056e6795599809bfa762fa5167d5", "0", "23276eb5bd598fcedf7efeaaa52eccd0a452ac6eb4857db8b5922dd21b6b241a08920ab36046576c1034c00d7fb1", "0", "5e8782808972eaa81328f21cafbfc6f243b3aa4669dfc75f9710995e48e2cb7fb98fd50e4a2f095d42cd7137a757", "1", "15065b4ddeebac1a607c86330be3cc054a4842feef3401bb318a68de5deee18cc939a86ab290fd0bfb4017e01bbf", "14641e19f11b8801c3818fa89a2fd4be7959c07ea247ee5262dfc9b1b4266646ff3d083729990a5724abe93ddeab"]),
(368, ["b38412f73b75bf8bb018cf2dffd52645a0f375a6e6a93dc10a0b5aca8faef6c74b4abd9f41f5233046ae2ec49b55", "0", "1789367df1643d7b466d4bf9ec2d206042695bdbe5a253e206107197658d0aeaca079a1ec5687bb3653fbf17bd91", "0", "b38412f73b75bf8bb018cf2dffd52645a0f375a6e6a93f36330307a514b74f244d75c3b9d6a4bd635f1736deffe9", "1", "3b0bf6a69c616b7445ee41ce76497b7fddf231c775450b9dced0d08d6eb012ebba637674f81e2a30387a1f3b9cde", "23affdeb59e7d8942f39638e1c553e24ff6b71ce8a5ec02946083f6ee148fcb4b0b0870e2374d1e428d94eeeb50d"]),
(369, ["1f5cf1ca3d0c8ed46ea49daeb9eebf83c338543adef96395fa813e0330bac9f807061e1b024c050503b3306e24bb5", "0", "70e6c701be40b67342a784f64d8c7c63081e428df2fd3692dd6faebeb2de6470131526ac8fd4570535ae0fc43d58", "0", "1f5cf1ca3d0c8ed46ea49daeb9eebf83c338543adef9639bc7e3a80e12b371a0ab2b1b695d006b306270495b09ee7", "1", "19f865e1a7104b24b1e42efdde2d1d4f37a3f9e54b07aa3bd71fd13212a5cf6f931689718ad384be628e71720961e", "5b5b9747bbac1c848181e171c48883b4c44a3d17370c2c5681359136235fec85bac49382d336d82843a46c6d1b73"]),
(370, ["23f691c282fd7fbacc2bc9d9ecc5b12a361d661d1cc4974e3c62783da6f38adcf5a9f8d7816ec1adb9b84b617762f", "0", "1f0ec9c6b864e63a5e2d60edb1611a337b7598d265eafae1f3331660488dc8b21a4df02a9c04e4a2dda1934491a2b", "0", "23f691c282fd7fbacc2bc9d9ecc5b12a361d661d1cc4977e0c4e735e62674bcd22c9a6f83491679b08f01c6771e0b", "1", "1b61951bfe690f28e6e19e6529f21d9890b2b6e4e3e3ae30eddced999a33dbef2a70d9af8693d8a4f305196741ae3", "dd300107e9e82d1963498d4024fcdb8cac62da1c3117dbecbe4aa4cc93715d8f8639c794065038f7622330e2a2a4"]),
(371, ["50cae370e0f1f78ce0d730a7ef5e4ebc6af59d98f9468ff314b578f78450338f1808e52df73778c619de26ac332a3", "0", "f8ca59f10bed34fc8a3b48b6cb0c978dfe24be59aeaa61483c04292da73b202fb008ab1abcdb0608e0fe2c9249a", "0", "50cae370e0f1f78ce0d730a7ef5e4ebc6af59d98f946902823e1484d1c69a2bc074aab2cedd9cf074a990702d5ea5", "1", "491a2d7c437c8a2584f57edee22fc74a36258d941601077ab42387b28894fbc5e1744cbf25e5aebef1cbf6852b6c9", "8bb013dab59d98e20cc8bc7f412f999c35d5e69bf72f9fc6d38a76cbbef7bfc726d75a81d9ad7eacc0ef5c71fc9c"]),
(383, ["5f5f9738cc6cab68a5c9381205381030fff5f65b6fb4f1068bf3fc75fd6c072e32243d35100eec5b3409d52efb6e786b", "0", "461638cdbb8b7e0b2f4aafc034993f9655687e71e5a962a1ed0f8b53e2f50a32f2e182ee8ab6bb1ddf1528aa62c4b38a", "0", "5f5f9738cc6cab68a5c9381205381030fff5f65b6fb4f106e65339d48d980fd5bab54c72b5fabc998a3fcf9f59fcb62f", "1", "1b400b368e3268fa58ee6fe08270cc75d5de871885e1e5f05a14f44d7dd35bed086e7c5b00b9f45e7de66c860e691a5", "1272d6b491d8c3b4d36e476fec7e8129c46d5fddc717b08549fe616a9311464aec299adf70df0194a0bf9d87d87bbcb6"]),
(384, ["8e0569720f6f1e9f6c3ecaa7a43aec66b3503eaa48abd1a4a36679315563b0fd731c25dd21fa5d7762eb956a17098e15", "0", "7f6effaf7123bfb29884e2bbec22c9a0acef388f3370d5dc601738fa8c3bb653ecb6271563afd3440d1f0ead29e38b6", "0", "8e0569720f6f1e9f6c3ecaa7a43aec66b3503eaa48abd1a51bd9eef58a527cab6c1c24bdef3460cfc7d0f5359fe2aa31", "1", "aba1766ab2e4316c0047644f58553d808170a5649c47ea17df4261ff1a8036225ab2c401d25010fef12ec52359a3c46", "c67f8315c7f46dc7679aba550235bbe77895e319aaa8608200fca04dc3a65b4c036fcd01eee3a74cc7a405d475ae13e"]),
(385, ["151612a1dc7a4af7bdb8e9e2b97e558e0090eb051e182714517ca5d039d8853c8ba107def6a974d32f1200ebb08b25cff", "0", "bafe401b497863c5da7a13d812f086d7e31cac89d572749ec7c25dd0ea2cdc4723f77e242e9d0c55cdd0862f374cc549", "0", "151612a1dc7a4af7bdb8e9e2b97e558e0090eb051e1827144cbf080e0975435baa11e98be6fd930f5fb5086002f1b9475", "1", "b5fb0d0a7c5e3e9c7f1eb627857182e80e8ba3b2b73db371cbaae69f89e71771d1f79ebb1e0918a9cbbade94ab5ec350", "60dd6221566528609fc14f653ed2105dd8a3c7f05e5eb08efc57b9ae90dece5ce297b83f17f23a5e5f10c033f7f97168"]),
(386, ["2cbf467cffa9a9be1712409cbedd894cacd3611dd026c6c6859ede30891f5f2efe3fb9e578a04f1c2a8630c450620361d", "0", "1419554730d7d7613957c8a29972338c31edd2dc7eb4f540902547cfa0d579dcd9603c7be9f83f926bd9dc7c5349d52af", "0", "2cbf467cffa9a9be1712409cbedd894cacd3611dd026c6c653c8595b17c15733296dd074e880add883613227f37a495cd", "1", "11b83cab380c09b0b2499d07b2ea78a6d07e6f2dec6de84e0f6638d2100b5372f2a65e9ceeefc4e250026e24dca4c17c2", "12c1603a12281c158e75eb5c8857a43f5c4cb2dae820446dd9ea603b591e9b4dc69dcb2f91c9596a829e8857c3a52aa3a"]),
(387, ["4bda85b1155201be35b0ff95d13a7857a8a131c23768779a63843a212c00edc7626d3d7298b4fe5d57b15a1a5362deb5d", "2953f34ca131735c27b8d477c64517f46de0d053694a7d1b3f938cdef7c2f5299c5c0a916829bf5e6ce1ac6c9d1fa521d", "2180d838688fb75aee4be832420ba01d743c4ef8fa52c2ba324a64253a991ce37289d7ea45fccff77d36f6e894aa44dd", "0", "4bda85b1155201be35b0ff95d13a7857a8a131c23768779a536171019350878a6d2d46b140484fe1bf21c96de91b53481", "1", "8db4e843a425f9053cf88c68474309a493fa114efe42987c8e451dc947e1bba5a467956d91cb9edc807244b2c0d7331f", "cda170b6a96041487c84e17331f715010e53a47cd1431a377e3fcaa017656223895dc8c7fad321ecb4af2df6c80282c9"]),
(399, ["6acef77992db17eaeef62820dfa64172e636a4faefbaef0bcd622cf837b9d8b01f49da2b8b8dcccfa65680ffd5db7af459ef", "0", "4f52c136890c2c76842e8a2d601ce06ccea83e51b88ffb091acd3ed4b88552e6db608fe01ac5d61a0d8a4547059a0764b6f8", "0", "6acef77992db17eaeef62820dfa64172e636a4faefbaef0bce43c960dbac59ad01dbaf7720d5d2f7d9273710e81078454015", "1", "696189cf5fd2b4368a59ee2f2ea96460423122d86733f1b64cf618532fcdd1f5e506e89857e1b011b076622ccb249c032ebd", "10a5413cd9f91417a1400d50baa1b2a6f21fb3c939c32f15274397c6f328fbf7002d6677642ffabd99aa7bcef5dbb4c78ba"]),
(400, ["a42ec536884ce45e1eee9008b6bb46967010181d5ddf7c49e848a3412f464bd1d4fa08831ebcff77ddbf12142d8feaffa21d", "0", "37d64b6c4e235e0943f19cd3dfb153c81640fa8dfdee9d3c73c1a542ead600d8ab0349290c2b97a1ef3ef5fda6baa50df7c9", "0", "a42ec536884ce45e1eee9008b6bb46967010181d5ddf7c49e9c2489e5fbefde86a502f79619d17c2b60f391069974d3a6e9d", "1", "5f5ccadf91133cbdab6c31c1a94fbfe7a804db5586b99f1540aa89323a2cef3672f92f48e8df4bab66f9e08a4c64122c34e", "1f4f76f7ae596393e843233cd7cfe7dbfb6d573de8ae333f53385796de3cadb6b620fc2b926d7a03c12bfe46a61fc23c0a23"]),
(401, ["16dfa49f1b943c58330718719826773f63c4c6764d0b6b9babfa9ecacd2d61b0a25233b26e858433d1bae66043d2d5f81d8ff", "0", "15192ef62bfb875eaeb7806184d1f4a5f6aee2cbe709db0b20ad948ff4976121d1ad76ca9948b3b72751375cd94f054d91eb6", "0", "16dfa49f1b943c58330718719826773f63c4c6764d0b6b9babd654ce7d737b2267da77e8755d9b48719b06d59952f9ad6aae7", "1", "13f43c67230f874f10f3127bfbe8352af49b790abb46c0ca794581046115f00dec31579dc7ae181bd46e4633d1f97e3ce2aac", "2c0228e0618c512dcab5c77edb1d2dc4e83676b96fbb9cb82ccc24ecca97705618e6746c4d0337e76ebe5c0755a1fe1cfda8"]),
(402, ["3e7456c30498db4b4dced7ab26c79bdf0147bd5f92d37a965dcafa36bbc50ccc7bca6aac30fad0e85df3239e43942fe8f12cd", "0", "2869a33286ea8e18e68cad02852477a6cf8541e206f6a1460c690776589ac919c39a26f3b64935e2d8707cfca269f09e5d40d", "0", "3e7456c30498db4b4dced7ab26c79bdf0147bd5f92d37a965dfa81fbfdb384817684800fb930a1033bb24b66fce34466f498d", "1", "807ff48588a935a3c5a793cb52d4d947f6f8ce8e2bbbb6a7613513631a6405946cebc31cc024f76fa14fc2edb14e8fc9a2aa", "12696194e8aaf429cb32c1d8548ec3afaebb72df13bd1440f1e215d7afba9ed7abbb91f399204441da0b266ecafa124a0bed7"]),
(403, ["47402fd0fe52eb4cad952d047524dceeb3af4ab64cd56d1ff8208bd2bf0d305f1cd4a45f34b6ccef7d334026a79e8b9c57dff", "0", "1bf6ff9c2aecf2cf989f3cf28188588611722040da4ebc336b0401851777909324ccb395bfb2c423471a3b68bbd33bd6ed7bb", "0", "47402fd0fe52eb4cad952d047524dceeb3af4ab64cd56d1ff7ea2eff379b1213e4741e3f52ed80db9efa85e7030758d8fe49d", "1", "22f686dd4c25e3fae20eea23e82ea827dc2fa204f6f21a67e35b337f8efc94d698ff28f3eeaebebb7713b3e4437435de2661a", "1c876a3bc1c9051f5ddb6e7ab0ddcb22af44fdc7bca547934f761ddfb5ad9649c7685d4d4af9830db2db6db2313d175ea1350"]),
(415, ["61a889d9c32bf967dae1a88ada5f904adcec784c814c4352b5c1ea8484733f52305b7c2efc5eb253d2a107af29084f7cd53c3a03", "0", "6da969e4691c172add05307684bcbc494b9b24165f37442521ae9f355e353d6a761fe1680daba16ddb1f15d1cbd13fd153faedf", "0", "61a889d9c32bf967dae1a88ada5f904adcec784c814c4352b5c0bb47f40d10a28fd1f15cd34c22e673d37a228864ae9cd2f01499", "1", "559bf650137b85936ac86b2a13fb19980898eabe2dc92e94e0d778bda9d7d933ce50cb5c8e66265fbd071b1887e56305dcf30708", "2e6323234e264d154edfe7a7786679b3f16874d70fde601dbfc16ea799c7b406abe0dc124e949d7ad157b08c3f0bd65ef7d53b0a"]),
(416, ["a146264419533a4f1b1225e15868ce26060df3b5f106aaba055302330ee218d30f259a3b4e6a06d9489abb4faf2f86deddaabb5b", "92f2899f64c3f0cb713d4e36f175866e55681f57a0e77d2cf18c00d190bf6e4292353ae4403d3472401a7f42527758729e9e9b00", "66fecc514f53787bced8269691dbc2d0e4238859ad4201906cc2e948f8b0c9ffc9af631d2348d2bae5f5397aa32a76420a1d35d1", "0", "a146264419533a4f1b1225e15868ce26060df3b5f106aaba0551d7ea3c6e06fcf37d9730a523541e24f274993a476b2cb54d615b", "1", "466e5fe3bdb67ad7250cbf33c2b1526c8dc30ca236d12f5e59d90b86bea424c395c8cfc57da87d70e6e201b712fb170ed98d4328", "ee07f2791f7ff65b00f7cdff9df121d0fd1e2f52ddd97b04163808bc5a8f5014bf006c3786b3aa50cef0e94a1f2f2a9ef283b9c"]),
(417, ["1e34ae3c9c227c061830791e775544795aa4dcf760a9b85ff56efce437d0a8c1909f704b34a5f2739910c9ceaa82dbb24625bb2bb", "ef23edc495da1f0acb927af00c0a70f94b844d160576c92d2536c565e0cfc7afaf2ee5a2bf897192a39bc14c48ca40f664540b02", "14504c6c890965f4371e1fcec66436ee4c1b0044dd0577b1cfb1df3aa4e79d08e47b2c59ea16e4526e59f5a2347309a6c51ffb28", "0", "1e34ae3c9c227c061830791e775544795aa4dcf760a9b85ff56ed470db58291ab68197a4bf7b06db5c735098b0656e02b923ca15d", "1", "d1ab99fb192860baf268db2b0e36b44303f51d6de97e3247432e7a6cd09288789c15c71441691530c420de1edefad56c48fa85d6", "7c33414dd386d5e0a2fba1f44182c1cfb2af6f5deb1cbc6632e6953d52cbf64ae4cd902eea2bb061f6da0a2e48153792984e365f"]),
(418, ["3196d68ea2f03f5bfd665903b25b7acf053c069ecd5e12055e5f0bd73d065de8499eda3a55edc3166e71abb338a1a5dab45624e87", "0", "718f56b1c9dd2fe3016459519de8f28d07c5277ffe78a61481d3db488441d5e19ec4b95bb8a85ff93cd021830e4023865bc3a99c", "0", "3196d68ea2f03f5bfd665903b25b7acf053c069ecd5e12055e5ee253b43a303a81b2d42f4ee960470658a2c3cd65ad7e602175431", "1", "207b6842e3ab196cffde181f780f1a06ffaafa80d16f5680c941c8126f9f80a40647e49a5f64eeccc882f649de3f44ab361cfc91e", "27b56c7cb1b00653f173a7a1d2359449396d9e9f8ceb75b26ff13b773a2099fc76d545f65bd09bfed23ad3728896540ba1fd47f8"]),
(419, ["5563b0bafecfb1a0c39a067394e1dbe253a6711dd982f7e15e0fa10b0c26c0d7a379fbca38177aa52f71f14abed59b0ed4711c19f", "0", "b800eb1a3c44e8425e983cfebb309f68525adfb257d78c397f06977338343787e47addfaa5cb977fcbcf6d319d56a494096139d9", "0", "5563b0bafecfb1a0c39a067394e1dbe253a6711dd982f7e15e0f5b89782c6aca917e1c38ff0e94bfef31f1d8d9482d497553f10c3", "1", "3edb16988b49247f4091a04ba1bc0a9a54c213009adbfd6ee052d30be28cf3bee7d2431d96fa7a9796281891649ce3186fbb29fd6", "af42140664ef6964bd8c751052684ffd2a508fc092bde79af77d9975022c0bc209a092bd245991cd80cd0fb3206ff98762332c6e"]),
(431, ["7c41f403bcd3e199e93e6f5df27232bf8b49d069497bdbad45e33c7fe78b43cc5c65bde1ea3d11aeb80d4c9741009754ca62c4e849bb", "0", "7338041493bca026abf8a4197aa89756c69c8c0a044a2e08f80e5ae39654d2aaa7cd55e7786603d3196a4d43e72447a7446a887d7a76", "0", "7c41f403bcd3e199e93e6f5df27232bf8b49d069497bdbad45e33d22f3bfa5a9cff7a7ff37586303a5c25648767693cc0bf9c5cfdf15", "1", "4b3ff28ca09de512645583bf92d2478f88b4bac15eb87c4e7e5410029b22a90efafe0522fa6d27bc0d137c935ba1c2b030ce2b5712bb", "12db20f571e7c43048c6b537d2bc4a99124c6a22ae4cb77576d3b88209d58a6b7061b03e8bbf43e3a564c38330fb1255d81b7ad4f9d6"]),
(432, ["9e5ca160f072d4c53fa51fa52d1f789b424ce0599b89ec5b990dfbb2a3bee6e16f77ac4fb1cb4544a15d1799e1e832d55a43f1e9cd25", "0", "46922c03f656559c3f2c167cd7f650c7e4abf5669fd2ba03c441876047ce1c89067ac812f6826cd26737a0e1b29fd15793ef9ee6769b", "0", "9e5ca160f072d4c53fa51fa52d1f789b424ce0599b89ec5b990dfcffa13016f6e364bb3f5c6d538b1335147b66ef6fbaf4ce1d1729c5", "1", "3a015bd85580d49afdde6eff5ff919b5e950d25ad0d4584ec5023e4098228cd9412ddaf8815092f9b7ab77a946bc94d24fa1bbc81a0a", "4f0649ac3252c113fbbd10926bc50b8173b46e2d0049ea75e2ae99db69502a89029db4155f365e0c31a41adb7a37122ed3016399658e"]),
(433, ["1349d2ff231904195e3217815265170481a6cda9332c0377fcc8c61ff5747a3b833b3ee51d2536495935e5eadea553070b5e25fb4e74d", "0", "f9b0f0f63eee1966ac145b7c85571c13a8d439e40fea19dd56ec6a17d8ff9656b3e76929a6db1fe1eb3960caad0c2dd4054c16ead826", "0", "1349d2ff231904195e3217815265170481a6cda9332c0377fcc8c627df93b7deb0c760ce6d42d757737eca074e8ebce19a384430f6b4b", "1", "2ed0b3f80c784390e962e1a0cf82dfbff6133429f71d653769f2918d579db17e587accb3e989bcab197b52f39202039c670c4c4e6bbd", "98ae4ded1e81c767d01e460cbc54dc9409cf9ad4fdae6cb31594ec9b159ef51ee87370646b9a3dac3d49c181d477799df3e17bb55922"]),
(434, ["2d3a9305dc7668541a5945ae2adffc072f8a71cfc1ad1bb4e371d7c3662d9ed39538c1b38546ed82c9a9a5f02a72e3edd51d1a52287ed", "0", "2ca628679e78de45a4eb7a39d0468dfd41e9087b05df9c5a390f1bf2bca5d1b6ec43c9db5cf865d55831618d07878122be8ee83635d70", "0", "2d3a9305dc7668541a5945ae2adffc072f8a71cfc1ad1bb4e371d79c9c011825c18637c6ee09f6503e0a14d85dd164154c6b02d57da73", "1", "2cc6624173cc576df996c5298f4d0f2c490f19b4bdf8ad7000fa23cef3540090d33a044c3805b2ccdfd36954ea3732d6283782fe886d8", "4f565f87fc4ae8a9f9658e7b55b9a392c66c5a2b80e947fa8a31babc0c44effc600bd4146a39d77797a7d67101ab516edf7dfd9aa4b7"]),
(435, ["660019fc7b519ac8b82ef416f48172b7293801a4041b9f514edc76970ea5d712e12903575f4fc483d473bd10d4999f407b2a36f09f02b", "0", "11d3527997d017850b47769a426d155618b42ee80dfd66d2f73a6df0b7a3648346bc92690514ad19bb4519494b3cbc3b4ea4ed4c1dbb2", "0", "660019fc7b519ac8b82ef416f48172b7293801a4041b9f514edc7650530060ce4427d40605454a666918030ff7c9a56c95f74ec2e6617", "1", "1f253a6f6ffba6399950816ed04867cfa5816fee5f956b1035858a68a096c741e04ec8963232da2c8ce0e890703d90f4034d5d49714c3", "2b0cef68640771d452c2358287650100c2eb80613d4f06b78b34f28cc38660c26bee4cddba65b38fc73141489fdac9e8771d5df05171f"]),
(447, ["7cfd28d6bd4d63c39936d97f55cc8b5c359f5922e4bbf052f1ddc36dfaf8b653c45dc1a064d62672a061127bf4098d49ebdda285dd5a2885", "72c32dec3f53fb1453fcfd2e0b9c1c5a24ca8abaebf9e46bda6dfc8ef3782ee21ad514771e327370c1ee463b882b33fd0b561c0fda2ca102", "3a9445dc50f68f22f93fbe451e0a4f7970ec0bdc1e331b755fca3533e84315e020237bb9befe6684a0735eee30b682982aea591d5a1f2a49", "0", "7cfd28d6bd4d63c39936d97f55cc8b5c359f5922e4bbf052f1ddc36ca3e1e1f5737787516110dbe85edcc07fdfd6cbbd710c99f731c8124d", "1", "550d398528a2a454d3b5b65c2a3ccc205ab724f13aa9f571ff558848e6ff84f6ba93a867343974d3a736e7bb0f28919e265be1aede3a2ec", "57218f1cea774869d0278b9ed08ffc1b5bbe28610f115c8adafe6db9d1931819d0584bbb9a275a1b8a8765b2e835518960bba674aad6e13"]),
(448, ["a4700f033c0b77070bed833c28b652f2f7f8c4f791493caf07a38f2eb53ae212f04715aac5f48877fa5c5db2a13a78528a4019ca68aa5d47", "0", "a000f86e8b74f8b19486a9fed195bd748679b3b106af9ad1f6fced3ae1a0bae247384916472dc2ce8348aeaf6fd1fa6202e0e8ed592935cf", "0", "a4700f033c0b77070bed833c28b652f2f7f8c4f791493caf07a38f2f4353976f0351db0f2ce153f314bfc5b2305f5f8dc5a5e814e7ab31f7", "1", "5139ac27929ad55eb9364f2da90424a07dbafb824e4d40cfc8b98517246d357dfe63080f592c7713751df43389aae3d8b06effd7d14fb720", "3269a40464540313a69f6fd202d5c4679764586fd44d2963d3f0c35fda48d3148a2d5c6f6777ff97dd99bb2a167d3b541dd94d7d48af8b91"]),
(449, ["143e4f5e9fcf80f8fde5435499c6a23cb6fb23058ced493be264d4831ae83fb41277c26a40649852dd6f5e5e783b3e658cf05dec776ed4713", "0", "f7d0b34d07025e91b00e74e13007cdbc3b392204c8b961d07da9647759fdcd60d839f9c7c2a49b2f66b6ef87d829476d4439b064297d6cea", "0", "143e4f5e9fcf80f8fde5435499c6a23cb6fb23058ced493be264d483393a3a4e720b2626ba80dac6a8064f115caf1bf52245eb5ac8f242639", "1", "761ea324acbc02bc029520cdd5009b3e36f35e9274d9cba67022f84b998a3483c3b666eeb6901d01a5e7803151d385b251d8859613e551c2", "785a3645890b041256c6cd21f7c2885a0549f01c3ecd2255fa995ba737dc30f64806dad1bd92bca65b3184ced411827776d9ed2a8e663c2a"]),
(450, ["36c4318b9f639fd704bfc34a6322919783d6e4cb275240aea9cba80ff6051a6408d7067f9e171d4b4004c8684e67f6930c486fa13bb20fc97", "0", "19790850c4fb918c8ca074e47095b8d6e8d482ba70e425841eed45b06bc0d36074469e17f86ea00e80b2558726e10c460dcfeaa92b41c8359", "0", "36c4318b9f639fd704bfc34a6322919783d6e4cb275240aea9cba80fe6adec281d1616365cfbc7785dd22c0417c6c7a3a4117c3dbe30d4825", "1", "2d0689cec520ec8051be30ab51d91e516ea1e062fa82090d868a78bee8c394bed52e154be2ddf4f25cfdbf9c577e23d93afd6e83fb0992aed", "707dd22cdfde792fd0628d0b60965dae8acc4dd8d1ce6226bb861c72789e9056bb4e2904940ed320af40eadfbe41dfacabc449cc6e3cf037"]),
(451, ["64811224fa94532268482c8b8811dd2cdd1835da4c5b91ea874cbd4939cf5703f33eeade09bfd6baa286d7e4e44b2478471dfabca23e3617f", "416e99268be0cf3f44728b64f9eb6f7e9cbc0093761652b2cca22da27876226f25261cce726b4aa79c533a81e421ae80da90df3fb2df8c56e", "10f1c6c07e04cce4d6458cac6f77114fcc69dc59fb5f5cc172c30482a4cada6f5d87d6eb2876c052af945c7290410340308ea6a769d675a45", "0", "64811224fa94532268482c8b8811dd2cdd1835da4c5b91ea874cbd49855591d4281e9e5fef3df6fda6487e708d0d4928edb0ed0a9670339f9", "1", "4a2363e5b15344254ca6f01bcacfdc540bf02d47ea1a636f8787d4b079f19cf0108bc4224141a90d32f647dfe40abe63e6aee7fac7485e746", "1b4797d5308c1fc733504b441eed2bae2e7c5aff8a4a62f4736547a4e6d70ceb2da515e9f0d4ca568a2f173dbef9926402e382cf0a87c156f"]),
(463, ["7e3a4dbb7352e341aab47fc3f7fca145b201c1c0d643ee9cc7fb14bdac18bad700d1d32c5acf2ca1c7b8f6a0e412b39b0db31893c83ca4843b5d", "0", "79c5c810f0ad22376be6af439bd6231906ba341937913d649bd2aaee3895c666650f3706f689a25c19c14f61c126c8b2114e75bf7d1da0b150de", "0", "7e3a4dbb7352e341aab47fc3f7fca145b201c1c0d643ee9cc7fb14bdaad21244619df70ef16f93b02ee025dbc2a112fd4d341636e726dad461c5", "1", "3d621e391213ae2de1f1bf228fb394dacaebf04e85ffcfccab36a192954327a8d23c8d1c46b4ead61a583428548ae4c5dcb223bc3952c291dc90", "183c058042deaa3595fbea475823a175e83976f2cba7754ea17d0466c5cc8748a2e214a917f3c1608d9cfae2955deeb36b1b454c2d3e30d5f502"]),
(464, ["b24a9f0c36b819cfa259308016d60af2d518c0a1ebbde2c241c42bea1bf4117f13e755894ca29a9a02529e706bb40c8598684a9c880c08242bb5", "0", "16b1c51ab282586c07a7dde5455f62d86332bf285e58d929c3fed2025f5d461a1893c05d66569008f5c8e2fa8fe818063d2f6cb07937878d98f3", "0", "b24a9f0c36b819cfa259308016d60af2d518c0a1ebbde2c241c42bea1a5b3ae32ee3c69035e1f22fbe463c2e079edf460a775e206265ea6f4f93", "1", "1e92eafdb61ae45d4a2d1203437fcfd736ffc94020e9bf5d67853a7e1b06f2ff0ef21b1978c9645f47728940c0cce6043872b4552af1cf8a46f7", "ef3b87da761748a0c31cd495be0d9042dc0662f02edc1aa67fe5394d4bef36fb138c123a15a3ed8afa1fbf67f6af4ae17699d39e3cf6f1936fc"]),
(465, ["156fb83e36aa1915c3abbea97c348136178487da6fbc067b51d82d08696b14ad588c1c86212dd6449dc8d85638e407291dc7c131b02fada9dc077", "0", "11e1cf0c77e04b28846277d35047f3e8276ecb92b48fab9c667259d0b05e1f4fb3c829f99cd9bcd95d0d44021826cf48bc9abce9da7fc9c75f231", "0", "156fb83e36aa1915c3abbea97c348136178487da6fbc067b51d82d08698e742a12e231b558bd8376cca4ddff4bb9ad838660ef2b3fbcc4f4ac8ad", "1", "65d64993fee2c697c2af25702bffce6e31c42ef3039e57030be74b1df45ddc1fd42edfba26eb4823a785535bcec6ae56110e8b91661fc24b8b38", "a5388fa175b0d0963727517e5e9d3b46c71a7d90e8d9f896d226d9542d6a97cb1d1a8e6abdb44c4db6f694438c18423fa65c75964f09955a1cd7"]),
(466, ["3895c8a3ad1868dc29a9cc995087feb72cd43b7d930e904c08a3fa58797b391fb240cbd02d1d657477c12d8086cbc4d7b35cd5d102382f4d5372f", "0", "197b7e39d6f22c820da20ff386886c8cc924b2ffb0b9c971bb54df9ad094ef6972d3fa19af3e0017620524a93b02fb4981790a1718482980ab778", "0", "3895c8a3ad1868dc29a9cc995087feb72cd43b7d930e904c08a3fa5879867711c916ead66ed15291f9fce05045c16208d5f4b38c3f377343fb841", "1", "1bd0c33fd3b82bd662505acf11225fcf26d89456f25452c11352742cc2cdabdda81a6b6baa7f496a8374b02840b49dc905e5c89e6110f7de9de8e", "8b99982371d2455fbd30bebdbc92465f4f474908938b25b58ef014a82f5c72eccea91819c6f6054c43389642e406318c81fad90ebe7fb1363963"]),
(467, ["516ad639638224f5266687d7ea86692387740b577237f9ac235bd27d42383292e61ca3df3120845dbde522f04334718a8a6ecc4e1a498f9c5b183", "20145def54ca8e07f881c5034a9b524d9afea88c8a03e3da6fd361ddb9160aeb637748980da51fd495f094ebda1b8a4839ba52aa5f595bb4beab4", "46ed0fa52c3bab5419ffb98812c2c9777716c1a1e58b2faa1372d485857564218a590754ac0859719341025c56f9af0e571419c68f1440ccb06db", "0", "516ad639638224f5266687d7ea86692387740b577237f9ac235bd27d41f86183abb32514f9f8df355d6316a59d12bc3e18f09d8d905375a2fa589", "1", "a07008d5e1d3fa2263e8c579472fecc06723aef2be377e72b789a8628adbc7639d4bf864bced7c7428eee9023b5cbd59925eb30de9c636af4a8d", "b1a1fe19afc4f595d0817483eaf0820f5dd24c79cc4522b0e8b49d993a2e09207317a45b24c411127e1059d79b231248d30e48ea62b9c016177f"]),
(479, ["4ea169862fea4c04ae34f09199b17a8deeb15196f2476eea11f7fd40d6c36e7019f700df93e26a4ce021287deb148514ba3202f8c0fb1589c157dfe5", "0", "44efefc8ed49a0fbf023f56df0ea97a9473f0746af3cf561ca8d358321d40b243efe16d5e012a12ccf37a2a49605e891363b06078e7d85f9199838bd", "0", "4ea169862fea4c04ae34f09199b17a8deeb15196f2476eea11f7fd40d6c44c4e662b6fd2e008f06fc558d3ca24e421efcd19ad179cc545d5c69ce939", "1", "1dfc828397bd31342e7c553a4ae2eaf694bef686ff121dfdfdc145fa4043989e9a55b34757da30f317b716200fc9341ce6b930b7a25f3baa29784c0e", "13ac9709713b60de4063a3b4d0096e50a0aa3061784af45a931c57ca07488cf9c7bef6fd6feec353b935819affa00532047345c04267b9df356eeb3e"]),
(480, ["d1cccf1c5a0ef63e68f8f3ea9edcc8d991a8811e2b608a8d47c12b92e90c410e7ce9472c541245a1cea2a69223643a4b74297473aa6573165e60aced", "0", "6493520285b5b5a4085201e3955af394b2e34fed58345d98495789007ce65cd9c6567343da3e25d484655ab13690eb699852218a7e746662f6ea130c", "0", "d1cccf1c5a0ef63e68f8f3ea9edcc8d991a8811e2b608a8d47c12b92e90af0a7b2533913cc75bed3bc5b2df3f13ad13f3fb4e37aea17fbe3827738a5", "1", "8d4e599e61f8f53f93e60d72260aa32437ba214e0088cb59de41157fdf30670a9cda024449f89eab1472c2d4d99d9b66215c7aa2704961997446aaeb", "2337cfbbd77ee63ed9177359b0af76f8b23465b2b4e3af7cd9e4d268498d2562df053f35184a0855f5960cdd95677f97e41311c22d21c067245cc5f2"]),
(481, ["1134d90f09563b4bfcc7b8940f5d9714f9e1cdf6b5c0c323ff178abe27be70d20ac7c4b162939081ad4061491423d14e296c4bd2286af9744f663686d", "0", "6455d304c619199ccfe52874d84384bab4168e4e8e87febd32d9edafaedb7ca1e6972461663f5a7d13f67841426abdc73a3fe05734f79f65976480aa", "0", "1134d90f09563b4bfcc7b8940f5d9714f9e1cdf6b5c0c323ff178abe27be560a44ed01ed35edd781f2bf4bd9765a07b860cfd2491e89ef78fb9d1ff81", "1", "5faccedd51fe09a2ed7efe799bf470bc6107fc32c44228effb6c2a6f47e69ad41e0bf724b0694bedd3384c4e5b26b67d79de98062cc0c7bc4a1968f9", "e2a78204f0599bb8fcacd19c8dfa1b441cf9c46d39d3138faf3c6ae81842762bdfe4fa3618e8599415f6f8fac6f2890e12c51d8a4a195135bc720b3"]),
(482, ["2a990dce4c81a8bb9e1395824887a3e1bce1bf39e629bfc180397bd83059614cf369d7d13212b6474fe550746252a46edb88a668c9c7a4fb6bd4bc207", "0", "7e65e2563e864bdef5534daf4ca9e3f3a07deea9ba39f589ae7b717949d51ac1bf8eed29b38097c44bf310cf7727fb56c4af7ae0855038be141c0011", "0", "2a990dce4c81a8bb9e1395824887a3e1bce1bf39e629bfc180397bd830593a9b0de1d229d1b5867ea09e5463a4b4f5ab6f5c656e007e531ff157c7335", "1", "2158e2601ad13ff4a33fd2cbe867ce6d28347f388d017d2fa2a51c655095d32837ad6ff52b72514cc241e54a03a7f8b604764d7c71cad98a2fee3e3a1", "90a8debe198d7dfbf64da9a6fbb1e99721ae72312437207a93c71fbbd01c933110cca7930d9d137b48dcb7c2c660bf3d78fb1e077780434ff0c996bf"]),
(483, ["7237c480477804cab203683a33bddacceb7e63f3acd7f2330a2ea693f5feea151eefbbf5bdaab9ed6f7013970e83ee6ede6edf3223e3aa4c7a62543b3", "0", "121230dc2df31e9e1d2501a9b9fd9b53435ff6317000b6611dc2764a60b64efbe524f1894a8ba92564abb443b2595fb3eb823d7cee7c18ed34b47da1d", "0", "7237c480477804cab203683a33bddacceb7e63f3acd7f2330a2ea693f5ff1384ab59c4015824ff613e6cf612bc9c6bddb4f616def544cbf9e468a004d", "1", "1446f73146dca3e28ae16725985599e8e02e77b8b239662b0efd3a17ec05615309f00c2f50887ccb831190ceb55bd3c971cd1b99d733c9d25a1ffffe3", "31993d5112231d21bad1907436f824234895485d72536b4a95a55c8be0c72176371708410fa5b8236d46e4016edb8733f414d40e9978da49d8c994966"]),
(495, ["4f0fcba7822f47b6c3eda167a720bddebedc434459eb2fe86c373236fbbfd0e794173b0f05f08dadf6e63cc4c3807eb8640d242838cef32dce24236204f3", "0", "344adae6c711d21cc30ce1ff0ba5ee6144a773204dc9778fb95b95d0ad173e8a31b8be3b11ebd237a3e6bb1c866089b4fae97539d557d0cd29da6cc89c10", "0", "4f0fcba7822f47b6c3eda167a720bddebedc434459eb2fe86c373236fbbfd0bc32d04a8e8c7654a1a29f01e0083f521414df8617b560aed6f52e6b06f855", "1", "32f2b3a6a0ee2cca6a2ab7db4a87b7caa3b4a17a9c69a18cae6017e1ace3a45b06d21cb4ba9a2f94f2f364bffa27bbda24b5cb0b76f8b0166da779a80e67", "431820a0e8994641749641e0f9203b63ed5541ca0e0eee53658c0eb6549f86e145102871510683fe122004906798228588df7c47b2e15743d64d69cbc2"]),
(496, ["fabd0b536d797f5536096bf565197e63eb69633df4079c76ec0bbf9e92db39fb86fb3b6b74b725fea636e6c385190b516f1fcf1a7f2e0c88c601220ed9d5", "0", "f9cb188067527d0a539fa9b4d1f325117620f931f2787b4e5cffed689dfa92a6655fd1900f5db35f584ecb30438ac5e8b5463b90c0990053e7d45c4e5b11", "0", "fabd0b536d797f5536096bf565197e63eb69633df4079c76ec0bbf9e92db380588f4af3b7399111766ad8b1ea829c8bb90f80482a46bec8bdf3fee4c4731", "1", "500f7624bfd71dca9d4d01ac35b6851bbee70f18c9072695f17491b102f0721aa8ac8ee38d5bac562017593dbcd79d207b3ec85dd7ad0eee7335ca71286", "4729db67305f07d88f35d1b5ecd2869b8b8ee9c9d8ec16d18fb6283232bd6effa694add9e3e12ed3b5bcf54f4e89ae44e69b8d88ecca293dd9a44afc0ac8"]),
(497, ["18dfd5dbfedd6c0aeab7e2b8e2ea8b1d4656cb70bdf643b321f4e743c20940ab9d94a209a1072029c5ac0c41f02968fa1f03d038a654b1082b1e71c83d9ff", "0", "63ebbe7560a608dc982cb7173f48f798cb95d46c69cfb460a3f9792d685e84e2c836dc276e0623be6853adfbba68dc9904ebb6f35d26662a066fa13ce726", "0", "18dfd5dbfedd6c0aeab7e2b8e2ea8b1d4656cb70bdf643b321f4e743c20940b3316df6b23a6e37c25d85dca9bb000b4ee35a2d0474ed4595c08e8903603e9", "1", "c7b12ea5e8e551220848c2ecf378822e6932fd94fcb9ff40f56569df837a0bc66abd6fa0b5591067b51887f6b239187084f5c100d6f8e67303ab2f0acc99", "5c1d6178c80aaa7535b291ef97b114f004ce8d39f7241c379725f85bf9388385d9656d12eafa2bc499fcce71535b43f2f32f82f26a2a60e79ffb7e083ef4"]),
(498, ["20fbbf10943f91db85eb7b5246939141199304e3f3a2a81bed697ab18d80cb47eb3518f4c4d16e4d62804b982b550592363963666ed91ca846c4969e93947", "0", "4291ff65067bebd54584df346a6dde20728683586b653ee513377e75eca3e7b00548ca02f3d4421ef616601e7a6f970227fe9d249625676ef824b21cfee7", "0", "20fbbf10943f91db85eb7b5246939141199304e3f3a2a81bed697ab18d80cb5b06a7220a6d85b105ef298be124f413e3661206a63e1ded49153566c17365b", "1", "1916c10395e2ef04e422b2367fa5af302d7b3da08e8bed48baad35bcc2dc2f87589ad383b4a24c5ba7d83f10d97c7c33d58a34bf2d7e52d7ab0114d1532b3", "3137305054665b54cec824c3543fc877ca0ca002ac7230b6e74e04453258fc860e456e02b4190dafd001829bb57b156d7355356d672599617f62460da49"]),
(499, ["503d2ec837509186b12d634e0703b0cb412c86f0a90d9c838edf24866443bb549da8886d5f6d156d2225466e3d23e06e0d6374c548de8a18c4e8da94bd22f", "0", "3ebae8f39b578dd2aedb3563a288a083bad6cae22ed6941d596e872117d2f1898074b762998ef4d0b04065b6e6a3e2955cf0d33da5d4dd00b0513e98de2fa", "0", "503d2ec837509186b12d634e0703b0cb412c86f0a90d9c838edf24866443bb81d0fc407388e006801fe8c7f20aacf0d02ccc67f6a0ef5d4595d6ef72a240b", "1", "9016a181ae3a831dc46423690f5680fa89ace1ff43838dd627fa943e40214e1891f7524f85ca62c13f4c97dd2e57ca4d47061f44c407dd7c1977293b50cd", "114813adb2b0b4a1f3366607425314abbe586c2749f3089f66f9ee670664fbb3f5b3b7020b98a71a5fa72430ab68df007d4aeeba08fcba9dbd4f9682aa639"]),
(511, ["774b0af859ead383916cdbbc18e64e2d1025eae94394b848e697dca318d70c0b87f9f9da2f5dd2e98ead5fa101aa8a775556ba4fb264823c4a3f54461dc1c76d", "0", "50f18098a1013f274ffc8471498d05b6112f070fef022dca68be4c73ae293e6273bb12bab0c51d862e739e0adad3f610647e70c9c0c0fb6ac5307a3465aca111", "0", "774b0af859ead383916cdbbc18e64e2d1025eae94394b848e697dca318d70c0b074c875425a880e368430300f6839abbfe7fb66aa2aebbb27889d9a3b51c986f", "1", "14d8c08b7a4aa56f18734865031d41bbacd7213675150080eca626372222aab8a5ec2a71126c74e4430b5e6983e4d96bff3fcc5ab775b7cc47087ff83eaec216", "35a36d1c410c05e8655f8e399d711a96a0054437572e1bf2b5b797c24849decb8780ed467fd28bcbf2418f0e8ad0e27efedaf8848cea06d5d69556078f850001"]),
(512, ["b3c72f48f6fdc69c8cf5b9c00de068706a42ae5803e3589afc374cfbb181f802d3b81e4e13d399e0ecd869f677338efb9c0bd7c7d2a2e2798eb900a3fe9c385b", "0", "b11921a04e3b2ded3a1bbf619c9cbdc834df8680e553c24bc63c7cad1ef46f7479199b3c197be80474ebf499ed8a177837d0cc8e2511bb6e39145d5483af42f9", "0", "b3c72f48f6fdc69c8cf5b9c00de068706a42ae5803e3589afc374cfbb181f80480c44259ba8958a0d45568ebccebe4c99c13f57d3fa1627f4f42d7f4c7196e5f", "1", "14e6e30244cf4b46d771885698193baf5e522dd3981440ea020129cc82a43e26fd45017bb7cc4009f33b2f6e1f62775a0ced009cd7f6c4e1f3840d71b39cf6b8", "1fd775ba25dea3f7343e5406e37a62be7c262e7afd4a319f4108c7f896acf731bf34faea58752b382d212ca4956a60ef7f061a40fa14262357776a44d2c2c07"]),
(513, ["1d43f68fa7fed5e784e4b720fd06755754bdb57aa432e10d4feb48b0e743efbcea73a26e0232414790449b2dbd69175a46efd460b8a022b1649119436a8c9b95b", "0", "49e8683d441ff9b13a14c268f9373a26aff0d29dd766af3be274144eba030565be07a27a52920fc441cc63bee8ae278cc7260e2f9b4ace515232fec33746de1d", "0", "1d43f68fa7fed5e784e4b720fd06755754bdb57aa432e10d4feb48b0e743efbd11c18049d8175fd14ee8ab718de6aa5681e1cbdb2c58c419cacd7ec0a0497726d", "1", "10f318b6eedbad7b57aef1e14424956b7bedc07a12e16a216872a963a4f55ea3844220d25cd05e51e72bd812cc6b1d113ed2dfded9f2d5d64d70b47a86d396f5e", "9304498b99ee81d31ae841d1541ceac4bc865ab42cf97bea53687ee816e5f6077343318343b015ce5d2a22f6fb4f022d35cb5dde84966f9b9e356d1bf2c02f79"]),
(514, ["3bdb7c82ebdaea8b468ba91ee7d6ea1edcf9e4362feb02aea587302cdc94a0ee0677428250aa14fc86dd4b59da9d323c1aaa4a701a3da4df4a4dfc302b1f6f295", "0", "2be84efb58536e3e6a82239bdef25367fea4f2106b388173fc2c8d6b8a016773db044e643c0e48f6312b485d490a6670d288fcd0c6a8af371490c71011ba6fc20", "0", "3bdb7c82ebdaea8b468ba91ee7d6ea1edcf9e4362feb02aea587302cdc94a0ee258fd838a76fab1925140f7d7c44dc11cd208922c15a399fddd9c50524e3977e1", "1", "121fea178c850c7975a7e6ea0f3078fbb1a429e381f439b6c2a2795237ad4045bff39084e5cf4e8959434e6945ea8bb510dc1ebc794389c22bd50ee2a9a279fc2", "19923ffbd0fe1754d091438c3883620fc0a50a29cae21290b3453b3016445d2256d266e9e93d957a21d8bd0cc846f00fa2b10ebf13839088df8e267fca9f81d0f"]),
(515, ["55b655c315368c4bc092478253d3db3fca6c0f161b7b389ea72a444443a690004f1e1c870b747b3d8e56e57d1ba76b7071108296bf2213b8a7df31b45b93d4e2d", "2e4f0414e6c769870bd58466a01a02bdcd28062c5df6beda5c21f74d1cd688907f52d5d1169b7d2bb6a6df8dde20a710baca612821a3f70564fb498bca4dfb2", "4a0950f440f73ee1ddd64136e0b7a13b74828e0614b74a1e5469355d89103dddba62f1f0d3c9f59cd2a0f15f56504e76bc5c0b465660b18c0c51e59e90e887fea", "0", "55b655c315368c4bc092478253d3db3fca6c0f161b7b389ea72a444443a6900006f424c3769854d06f9fa0e81ba7f210bdc9aa701367a3c5582b132b0ba5a1f2f", "1", "55005d8895b010210032786791fd8c848ab3fab2c8186a9ae5363ddb2c73bb53d9c750f93d6cd38c97922d6ea65d314ef267ce1753c48fd934da6ef3fd90db874", "84256157d7c7ff8ac440322d4e836c3c5e1c0f340b6480c02f3fca5afae4dc62cdb2e862aa81082e3b7574709a9a52ffa7419d91172f2ece9789b95a96f4b835"]),
(527, ["53ecc435263494429b24658ed22b5cfce73c901357ab65314bb3b5d216a5e6f74c8704f4edcb9a62ac57795fcf8491a249c1e0fb2c42162c5f0a0badbdaa92baa11b", "0", "3148d9b9d50ed96562a455adee59812bf6cb6f8f647e1c2db3051354d426a657b5865b4373621c169e85bd2ad5242a9bc558129462e406e15dc855416bfefc334478", "0", "53ecc435263494429b24658ed22b5cfce73c901357ab65314bb3b5d216a5e6f74d658d10da503891074aad5b34470d32ca0698bb176ecc88b4d6bf03ec8e9bca3d3f", "1", "210ee33ee9fb59217e1fecac2a40174350ddb1ade67f19c7317d34a09f7f5c9a0afc0c7e6c80a87984c80f52f254501e24dbe4869da880df8358e58f5110194e7b34", "cbf6ccbe3804ddbec8e85f49482f7ac614f3e637891e8ad7e562501ae944d7cbf12129db8af34cfe7a3e0f9a266f3676a7ef056e4b763638285f981985faa76d971"]),
(528, ["d9db51e83922254e5e9364c3cb5b4c0e16a7e63c194703691f3fe48434a50cab927d58f36360743669e9cb74ceb59a4b9690e829a66dc019ef87a91c4dc968e0631b", "0", "1680659b55830530e0adbf959d91e1a089b82def94d4e869c40886e4042d91a051cc99dcc92db56dcffe5743813bf39e172b94d0ada6c67797ddc75248f19c4d7d95", "0", "d9db51e83922254e5e9364c3cb5b4c0e16a7e63c194703691f3fe48434a50cab912f88700dd05a49b96e18372e37d080ef084ba6440001697549ba678e1c8010a6dd", "1", "6d625105f53bf6115452de5a872fca7e66a0e1b29ad1c36abf79c1bf43e1537a0b1b24b03d9c039b08473fa1927ab8e4eb731387f147deeb16c97f5661ca4c8f0aea", "61473e80b42fcdd8f4d4310c2856c08d7a2cc15c5ae86a7c2b051c5ebc75a8c8294b90f2143a280b38138e6b578e984a922bd041de47cd2f9b524faf67d1a5705338"]),
(529, ["1955f1d2e735d6c6e8219bbc11cf2691c837c633b5e21c7d08fa71e2b7b3c738d2ddefcd3351fad1f11bdad126a5c40c953afe2e687189fa80c59899162c2fb1dd8a5", "0", "2ce1731a7a0039eff92ffcfefa75c416e87e2fed1bf64ce1eb4e7f87bf3358ea73d12b4589b2e0783a96e6a9027094475adca522a483b87b4f9e466bc2e6d87c4bb1", "0", "1955f1d2e735d6c6e8219bbc11cf2691c837c633b5e21c7d08fa71e2b7b3c738d2bb6232081dee366f1967223af25a9b5c07bf4ab6084d5cdaa7d9d5a01d0f710ad71", "1", "8d228c8455dd1df394e8bf84e1640f2158babf5920bf4e8bc200df22eb42472a5a8943ff4e463ab1d7629d93f42653cc5dcfe1d93df30f28b53e7a7e32caaece460b", "6288513914b47259fbf5615d89093d50fc372944132873799a60a53f7d9ddeca85b38ad2fd8b48ca4840b3483f871386a29914795dd64ebb79ee5e2526591bf46626"]),
(530, ["28bee9a94e4915993a73c8e8d932df0fa6c3874669766fcf28eb8909a37d77545f59b9acbdb8347e03824a55abc210a348557f6ae410df9f8ca5626a9faf89165981d", "0", "202f517f924d2a5d45609cb77e80aa9f67a66e743cc3e1109f4461769d543f85474fdd9676624fd7d8e29bb94c82b20d196502b75eaedf927f4d6f6e76e731b6f27a0", "0", "28bee9a94e4915993a73c8e8d932df0fa6c3874669766fcf28eb8909a37d77545f8ca8c9a00a9262ae7a8b40c95cf39844fc46c6dede1c0d44bd6de0d602fcd0d278b", "1", "213a523594e33ab00f5bab605ac4b40f148bd05de7fb6b1de0a52ddd4661dbfd53bb184a5fe01569f0a603fcdc13cdf44b24cfef01e072f7ac9c3dbaaf4b89f453247", "59816143e4b84889e88068a3405c452aeaad3d499d08999642135ffda3664b6678756216277befe0e69019938f1a09ec179eadcf4452b8c078a000cfcf1c98f08696"]),
(640, ["a6baba0adda2a8746f9c7619696cfb7fadea6f323b39efb8720565d5203864c8a602a749680d32848590a53829b962159a6c4863b4ec3c4dbaccd528bc1050a1c76b152fb1ee4fbaa4e0f9a674f7b985", "0", "30f41ee84afa6078b496a500ddd25df3a0a2cb245e96d9b699f0b11760534f1912f016840dfd068b3ceef54198b4745b24472d4b0f116a777bfb4f15181bf2b55e54d4c07a2e5417c8df0216b630f57f", "0", "a6baba0adda2a8746f9c7619696cfb7fadea6f323b39efb8720565d5203864c8a602a749680d3284b8710a91eafc3b3f935a3869b7b9e685be661f52946b457d7d9bcfd42ec4b8b43cdf74dd123cd9c3", "1", "372523fd6bdd3b5ad11a784767eae640102e85d6c0d2552494e6ad4807bb23146ec55625542f282ea1817bb7bc6c3999d7203255f04a4ed2d3f6e32be811228bc6c5dd8e524598830c63c6324ae56a2a", "3d99aa418fae59cf134a6b36dbe8a0f445abbe9030c3a0e7d8ea03634e3913d2b237d7f9a6c1436d2d7a23e32e6e587ed67695092df1d5507437d22886b6e01ec96645afee72756549725e1e976fac4a"]),
(801, ["1652ca806399dc62964ba0b93ea135f3176329175de29b155c348ef111a071b77b52ccbf70faf3cd7b480e9f5d5044f5df90def5300c7698e3bafe4395d21707b5e1b322e7ccb9298dce2eb47ef5260ca007f103d4e6cbe94e4c06433b9b25f02b4e6975f", "0", "12f6bf4110da8ad48cf5f7cfea4df7051e59c3a2bb331ed964a3fefea5438e5740018518dbd1c91c07041f8fda1a7beeb052584b525e86bdfa8ac34015242c5bdbd712910df5d3ab966128f5c626d311d72bbed65f7be1ae1bb4895caa17da870887ec49a", "0", "1652ca806399dc62964ba0b93ea135f3176329175de29b155c348ef111a071b77b52ccbf70faf3cd7b480e9f5d5044f5df9102d6dfc74601196492f2a7b8e2e135af2b126e50a774f2dc0dea41ece038a3c01deb84d7af5d34b4dc6b760c7fc50c7deb2ad", "1", "4d11c2e10f758d3950e801d292ac96be6327d7e85000b491f1f4ea6e3eec3b784fdc5aa5ff2bc251ca4623358ea5d4983d5140d120c4a930af8cecc378c4b29bcd6f05a882b715ce3edad86033b54cb2afd409f6c1dffcbd23a5ff0357c3a1a05701c9f6", "9bb40cbb084872984974e4d718fbe52ded0f474cf3cfc5b7d3ce83cba8e950b6583f0cf81774d5908e20ac31f50ff056ad717aad3daff15330601b1c621e3fe96904e6c6a1350b10f5237ecda709d09e1d09d53704205702cfce6d5c11f390239a62de2f"]),
(1031, ["76d16ba6385eb57c29b8f49374c986f0fe008e3bf30db8acb7ff125ea8d1b805b0d3cf7e4b28618c36cd4ac168928be8f9c9fc4ea492c811d92fb6ec3ba30e0c990579db1bbfa55cd8d5ec4b3a8bed265125f009e899391e5c9de6e1504b7decc5ed88fa5e3fe55482e6557673edd365a722b0722a807ff056e097bf71d7a09d3d", "0", "4f827f4a51f58d042f435ec17874239b4159312230ff9fad4ccd80e2aa2f1410be3cf2a7c0aacea9838479a88556d33707aa88500e2e78835646a2d2f219c58d87e1f0b4cc284e0c674767b272e54896d92a5c68db258bf90f521e6a3aaee94cf8561600277664a3152d23861baaa0ed5733f1af154b02763f28e2b756bfb7ebea", "0", "76d16ba6385eb57c29b8f49374c986f0fe008e3bf30db8acb7ff125ea8d1b805b0d3cf7e4b28618c36cd4ac168928be8f9c9fc4ea492c811d92fb6ec3ba30e0ca09bbd5a7c0f8317327914e596f665398879beb774a97176bdd199619306fdfa7dc98d7229f6d265e229c3972f02a58fca9a6f970102600117a029cb1df9bb00e7", "1", "2a01109c1956527ac28e29b87cb239265f10c9d27340bc1682637baea435440fff5b9a76a0e5dd9795675a3e41f75d74d8e1cdbbfbf86b29c25d23e10cec9af42f4441631a83d806aa3c40d11bc21a0a81254558087393127d7ed6c5c582d08a63565a083cbbeae753c1360fafc44fe1b2d0d5b2182d28a38d05c99078219e1cf7", "17c6bf77991fd18be0b239334d5907cd17f5b16fdf55d7a790d0f984f6ff580ea6e7828bd7798b9c49ba254802dc5ac13858b132cb2d2c286cf38b08761426750cff7929282b57584552a424eb4f4371a4b284291fd098f2dd0d6d05f1cbe2e47ab0c177c8e726b4806c60f1101a62bf21cf3d9bcfd51f403a193b7667f2d5299b"]),
];
#[rustfmt::skip]
pub const E: &[(u32, [&str; 8])] = &[
(6, ["2b", "18", "13", "0", "b", "4", "21", "15"]),
(7, ["43", "10", "33", "0", "11", "4", "30", "22"]),
(8, ["a3", "39", "6a", "0", "29", "4", "2b", "4"]),
(9, ["14b", "ba", "91", "0", "53", "4", "db", "88"]),
(10, ["38b", "226", "165", "0", "e3", "4", "1d7", "14"]),
(11, ["5fb", "599", "62", "0", "17f", "4", "de", "1cc"]),
(12, ["ddb", "8d8", "503", "0", "377", "4", "725", "cff"]),
(13, ["191b", "ac9", "e52", "0", "647", "4", "b1f", "16bd"]),
(14, ["20fb", "195b", "7a0", "0", "83f", "4", "dff", "97e"]),
(15, ["6fbb", "1a68", "5553", "0", "1bef", "4", "549", "15a1"]),
(16, ["fdf3", "691b", "94d8", "0", "3f7d", "4", "a564", "8c6f"]),
(17, ["19cdb", "19aed", "1ee", "0", "6737", "4", "8e88", "4b43"]),
(18, ["34a0b", "1292", "33779", "0", "d283", "4", "1ab48", "60f5"]),
(19, ["62503", "2a88b", "37c78", "0", "18941", "4", "24152", "1211c"]),
(20, ["e873b", "27937", "c0e04", "0", "3a1cf", "4", "8cea4", "4c5e7"]),
(21, ["12e353", "7e19c", "b01b7", "0", "4b8d5", "4", "3ff82", "d9697"]),
(22, ["3edfa3", "1c5f90", "228013", "0", "fb7e9", "4", "f66bb", "1a9f14"]),
(23, ["628c03", "483418", "1a57eb", "0", "18a301", "4", "5e4484", "1d9e76"]),
(24, ["9525eb", "51b083", "437568", "0", "25497b", "4", "57985d", "6fc901"]),
(25, ["10f4bab", "6da1a8", "a1aa03", "0", "43d2eb", "4", "da079e", "78bfa"]),
(26, ["2508c5b", "22a5885", "2633d6", "0", "942317", "4", "114024a", "87d3d2"]),
(27, ["505d84b", "461d14", "4bfbb37", "0", "1417613", "4", "a8c6e", "3a2567c"]),
(28, ["8b29e6b", "5a05330", "3124b3b", "0", "22ca79b", "4", "2ececf2", "7464e9a"]),
(29, ["1936feeb", "7bd1fb7", "1179df34", "0", "64dbfbb", "4", "13f51aee", "96bd0d7"]),
(30, ["202c9813", "1ce3f765", "348a0ae", "0", "80b2605", "4", "c06ef8d", "1d11b117"]),
(31, ["5fac8773", "10a7519d", "4f0535d6", "0", "17eb21dd", "4", "4b8ffaf6", "d59c022"]),
(32, ["8427b563", "56991c96", "2d8e98cd", "0", "2109ed59", "4", "10b2f1b", "361dab25"]),
(33, ["10103aceb", "fe55034e", "2aea99d", "0", "4040eb3b", "4", "9f15e3f7", "d7cf108a"]),
(34, ["3c2c11273", "2a7ddbb4f", "11ae35724", "0", "f0b0449d", "4", "3242886df", "1e28933ca"]),
(35, ["50bf7090b", "4fc7dc6cd", "f79423e", "0", "142fdc243", "4", "68abd41b", "4251ab7eb"]),
(36, ["b8442bae3", "ab0e50e55", "d35dac8e", "0", "2e110aeb9", "4", "5cdf2884f", "28c89f3a"]),
(37, ["106d9af29b", "6dcef91c3", "990ab60d8", "0", "41b66bca7", "4", "19b6a62bc", "60263fbf1"]),
(38, ["276c454033", "1e4cdaef4d", "91f6a50e6", "0", "9db11500d", "4", "109d171613", "1bb924932c"]),
(39, ["4488ce9deb", "3bc37f269f", "8c54f774c", "0", "112233a77b", "4", "16b81bf59d", "26286f5535"]),
(40, ["beeb476ed3", "58ceaafc98", "661c9c723b", "0", "2fbad1dbb5", "4", "5ec81a3a50", "7f9a1abfa0"]),
(41, ["1c471ddebc3", "f5f99633b0", "ce7847b813", "0", "711c777af1", "4", "44e7dc271b", "ecdc1d772c"]),
(42, ["2cc5576b0bb", "73aaa4a2f3", "258aad20dc8", "0", "b3155dac2f", "4", "1da6cc4d7c7", "2161b3e837b"]),
(43, ["65c4d9164a3", "9aaa3acb95", "5c1a356990e", "0", "19713645929", "4", "3cb4caa2bf1", "4bf25af15a"]),
(44, ["b4e9d13f43b", "182ca7b35da", "9cbd298be61", "0", "2d3a744fd0f", "4", "bbb9cc07d8", "8f1050d9cdd"]),
(45, ["1a8452623893", "177d3902af8", "190c7ed20d9b", "0", "6a114988e25", "4", "d8d76e3cfde", "91c4b6646fd"]),
(46, ["326609208f73", "8157c7fab06", "2a508ca0e46d", "0", "c99824823dd", "4", "de959d34ea5", "bebd5b4be69"]),
(47, ["434fe08ec66b", "3871ccc28989", "ade13cc3ce2", "0", "10d3f823b19b", "4", "292ced2618d2", "16e210408a6e"]),
(48, ["cbf5ae3229cb", "262d65b0e8d8", "a5c8488140f3", "0", "32fd6b8c8a73", "4", "908c7429236c", "9f18b333c829"]),
(49, ["160857cdec08b", "489f9654aa92", "117e5e68a15f9", "0", "58215f37b023", "4", "9bf21b50806b", "7690e827e366"]),
(50, ["35cc642494c63", "149adad586a75", "2131894f0e1ee", "0", "d73190925319", "4", "203f39bd8796f", "e7bdb2d7861b"]),
(51, ["643846c85b91b", "2110caeebfb7a", "43277bd99bda1", "0", "190e11b216e47", "4", "3ff479cb97c07", "62605371244f6"]),
(52, ["cc0f74c07350b", "9319d3e1abcf6", "38f5a0dec7815", "0", "3303dd301cd43", "4", "90de5c72d0e60", "1b6fed6ed43cb"]),
(53, ["1e328e7773362b", "1141df9f962fa9", "cf0aed7dd0682", "0", "78ca39ddccd8b", "4", "105b2c47fcd3f5", "1d0fcfe0a17a12"]),
(54, ["20baa40efe168b", "16b319bf232775", "a078a4fdaef16", "0", "82ea903bf85a3", "4", "43d4c7a91d314", "1e48c65968651f"]),
(55, ["6347db66ee2c9b", "28a629e9e424f", "60bd78c84fea4c", "0", "18d1f6d9bb8b27", "4", "265b91984873ab", "3e2ddb8342aac6"]),
(56, ["efb1bc16b474db", "38ec0aa1f1ace3", "b6c5b174c2c7f8", "0", "3bec6f05ad1d37", "4", "4100d8d27bbe03", "412ed6992fb252"]),
(57, ["1c647df9ce82e13", "11af02b6819a5d8", "ab57b434ce883b", "0", "7191f7e73a0b85", "4", "f194495cf5b3d5", "178ef8f39de1d74"]),
(58, ["2425641644f1c5b", "b69efa483b8bc0", "18bb7471c13909b", "0", "9095905913c717", "4", "1f115a1f49ac39", "adcd89f11e26aa"]),
(59, ["420a155732333eb", "3764534afd04ed5", "aa5c20c352e516", "0", "10828555cc8ccfb", "4", "22d7c307417efef", "269948cfb2fcaf3"]),
(60, ["907236b2ebe6903", "63b3fec91ed993a", "2cbe37e9cd0cfc9", "0", "241c8dacbaf9a41", "4", "7fa19a3f48c4eae", "32179e8d3c49705"]),
(61, ["17155468d6561dd3", "b217d236d12d08c", "bf3d74569434d47", "0", "5c5551a35958775", "4", "d59270f3bc81c5c", "fb503dedbb1fa45"]),
(62, ["381104c08a6f5b43", "5c8e08780d13a58", "32482439099e20eb", "0", "e044130229bd6d1", "4", "2951de358829d38c", "18c8fcf28693b4c9"]),
(63, ["7dcc7746ef31315b", "7c12bdce09ebc3a1", "1b9b978e5456dba", "0", "1f731dd1bbcc4c57", "4", "37c697c3dc8f19e9", "6b28c1a0b0d0eec7"]),
(64, ["926fb6f69f1884ab", "4ee67d301c7ffe55", "438939c682988656", "0", "249bedbda7c6212b", "4", "aa0250e18edd7c3", "3642af5e5e299646"]),
(65, ["11d5f4020db5257a3", "f9e23ef4293cdfb", "10dc11c3198be89a8", "0", "4757d00836d495e9", "4", "d6d15948c5e67d85", "8edc4d1c7a299c54"]),
(66, ["399e520f5009d8803", "393905368c19770d3", "654cd8c3f061730", "0", "e679483d40276201", "4", "2dcdbbc328b4ae35d", "1314b8985d6b8e597"]),
(67, ["4da87a5cab55311a3", "409b4c3a1fdf92ab3", "d0d2e228b759e6f0", "0", "136a1e972ad54c469", "4", "39e44dcdeed6b6f30", "31c0548170e71ac64"]),
(68, ["b6cdc6475d72744cb", "53de28b9e31ea424f", "62ef9d8d7a53d027c", "0", "2db37191d75c9d133", "4", "62bf823961e27acaa", "86a6ca3c2f2810bd9"]),
(69, ["12d1e5ed1aeae90903", "4323c70ee7d2e7e25", "e9fa97c2c6dba8ade", "0", "4b4797b46baba4241", "4", "2516438ae48862a7", "3c23657ad9f8c0d59"]),
(70, ["3dfc5784451ea6f203", "2d25bf9991703ab0ce", "10d697eab3ae6c4135", "0", "f7f15e11147a9bc81", "4", "12fa0dbd6e6f897958", "ed0b00193b9c7f89c"]),
(71, ["60e6c03a2f8c547743", "1f04f816076e627b51", "41e1c824281df1fbf2", "0", "1839b00e8be3151dd1", "4", "59c0a3aa167aea6620", "4421552ab5b3ea4046"]),
(72, ["862748683439a51ecb", "2d5e6fb855acca7f15", "58c8d8afde8cda9fb6", "0", "2189d21a0d0e6947b3", "4", "13b2628e431da54fbf", "595f7ef61ce2d6e74"]),
(79, ["6d505a65917833de386b", "1e7d945b0ba751c75cea", "4ed2c60a85d0e216db81", "0", "1b541699645e0cf78e1b", "4", "4bffe1113e3d3703dc85", "505dcf8dcd273ee401d7"]),
(80, ["91b8be7b9c514aa4544b", "168823463bb17d57f004", "7b309b35609fcd4c6447", "0", "246e2f9ee71452a91513", "4", "1db87aa00e91c512b54f", "5178bc6d15745755bd52"]),
(81, ["127c9c6c67d3e6326fbeb", "f41441e934710edf2b9e", "33b584dd48cd5447d04d", "0", "49f271b19f4f98c9befb", "4", "4bd695f6fb7db054ead6", "3e489da8d5134b1116c"]),
(82, ["209f04d80e3a624eb04cb", "1a8bf7d813612274805c3", "6130cfffad93fda2ff08", "0", "827c136038e9893ac133", "4", "66c66b9d90dc6399a8d0", "46f39f19e386c4d6be32"]),
(83, ["67d28b9e7c3dc7ccde1e3", "5e07910cd3ead981bde97", "9cafa91a852ee4b2034c", "0", "19f4a2e79f0f71f337879", "4", "5bdd7a3fbbd5ecfebb10c", "2f916812c421ab39339a0"]),
(95, ["40cb51ae9f606853e521cdbb", "2e364dfa6eb1a564be533518", "129503b430aec2ef26ce98a3", "0", "1032d46ba7d81a14f948736f", "4", "3ec506a6e1e04c85de1a3459", "573f3f10febbd38ae49dac5"]),
(96, ["87e94c96f5a8b201b0eb2be3", "5b063a054a5cb53352e38ed2", "2ce31291ab4bfcce5e079d11", "0", "21fa5325bd6a2c806c3acaf9", "4", "604ab67164f0b0c5edc68543", "235390818757f582acd3d40a"]),
(97, ["193c0a6fd8dd3ad33ce7f56e3", "3c44e903bd3cb5e428253b22", "1577bbdf9d096f74fa65a1bc1", "0", "64f029bf6374eb4cf39fd5b9", "4", "464c360934b6b4d09eecce8e", "abaf2eb397b992bbf2537cde"]),
(98, ["2046afe86fa9d3b5817f4a593", "4924bd5f013ffc8b7a97022b", "1bb464127f95d3ecc9d5da368", "0", "811abfa1bea74ed605fd2965", "4", "16b479f2bfac03870f316592f", "4fec9c1ef757fdd855092b0e"]),
(99, ["72eed988ebbc90776a024a4fb", "3b59f7e8e5e666e63167da89", "6f393a0a5d5e2a0906ebcca72", "0", "1cbbb6623aef241dda809293f", "4", "1fc1adfa425ad8923daecbfa5", "3854800851e5e7a3efe79ba62"]),
(111, ["517a18f2efe42775faef9449bf03", "45983c41309e39a7e0515e47e942", "be1dcb1bf45edce1a9e3601d5c1", "0", "145e863cbbf909dd7ebbe5126fc1", "4", "1e6dc9e58f501d7a6701dff46faa", "22aa642f08fe0434de52eecf6560"]),
(112, ["e643b1ed1561d5bde1837c4643eb", "54cf623730c07d693ffd1e8abc9d", "91744fb5e4a15854a1865dbb874e", "0", "3990ec7b4558756f7860df1190fb", "4", "d4df2369dd308aeba0567ab35650", "22fe7b7662ea30f0593d78be0a84"]),
(113, ["10693ba658727e2585b1bb4aca6e3", "464b822a00f5c9cf2ae07a211d54", "c048383b86321889303b3a8b898f", "0", "41a4ee9961c9f89616c6ed2b29b9", "4", "1e988df3bcdf91268dc374a3309", "53818a3ecef6f67ce34caba9be92"]),
(114, ["283168df2349cc9240628ac4b6303", "46a72cc9182c4f616589ac919b35", "23c6f61291c7079c2a09effb9c7ce", "0", "a0c5a37c8d273249018a2b12d8c1", "4", "d5deb435940d3ac4cc0671afb98e", "72260cbca5ed6a2c7b8e2c15d2eb"]),
(115, ["5c91ee16219b894cb9036d0bf2bdb", "53b4bf0d3036e2aa97a4abe28f86b", "8dd2f08f164a6a2215ec12963370", "0", "17247b858866e2532e40db42fcaf7", "4", "131e2a3d52ee19e2ec7a706c071c", "38a871a01763813f34407e4923d50"]),
(127, ["5abea3616e61a3d8ea2ca92890d0ef3b", "475cfa6961fa98b6999cd63c83852672", "1361a8f80c670b22508fd2ec0d4bc8c9", "0", "16afa8d85b9868f63a8b2a4a24343bcf", "4", "45b86a59f116ea1e9c09ca390c09e5a9", "499a73eb7e5e977d668fe865bdcc1e65"]),
(128, ["c7cd19f2a00e04d393120e6353f61e3b", "93292bdc6196e92d4e9e59f704c0d286", "34a3ee163e771ba64473b46c4f354bb5", "0", "31f3467ca8038134e4c48398d4fd878f", "4", "2dac571f29f442d12c07ec67fdc13943", "3d5003fcfa52249a21fe2427b5b85599"]),
(129, ["1aa055c32fcd200738fa3af510df5096b", "10d0fba562565979a6ecc247b3c269bd", "19934608d9a7ba6f9e8b6ed095a329fae", "0", "6a81570cbf34801ce3e8ebd4437d425b", "4", "40713af9fc9f04d1ff88f1e1c3d9c218", "b7f8c56eb13880226f1066e136c9302a"]),
(130, ["3bb62200fcbe6dcef58bdb21d3f724263", "1eb5eb4701fd80a4821f854b1d84c352c", "1d0036b9fac0ed2a736c55d6b67260d37", "0", "eed88803f2f9b73bd62f6c874fdc9099", "4", "29c846714bbb7490b7af45012ae1789ca", "282d837e6eeb645ae9d9fc15f3a1d8789"]),
(131, ["57b1596dbba6a34f7c9498c1881014d6b", "4545f781327b62f2f160f7930ae3d1125", "126b61ec892b405c8b33a12e7d2c43c46", "0", "15ec565b6ee9a8d3df25263062040535b", "4", "2b14aa400361ff6d5b02fe12d176985ad", "4ca37b908dbf228fde2be4707f025de77"]),
(143, ["6c32732440a87f765ddfaa7579e65f07f80b", "4c7c6e661126ef3bb899c41aa7151c17d5c2", "1fb604be2f81903aa545e65ad2d142f02249", "0", "1b0c9cc9102a1fdd9777ea9d5e7997c1fe03", "4", "6252714f662fa317171afac8c12ff78d8ae", "3b39d34ad7bedf6a74b780de9191ca54ddf3"]),
(144, ["e9ac966ee02d6d99fba094ce6cdc8c1e1a33", "47c0b183cf02b29a380a68fdf3082705fd07", "a1ebe4eb112abaffc3962bd079d465181d2c", "0", "3a6b259bb80b5b667ee825339b372307868d", "4", "72133f759154fcc972366f337ea12442f5cc", "4e3ced157847fa1bbcb5bb95b5c47f2d5600"]),
(145, ["1d99310bb57e04a5c699032d43e08ff33431b", "156c86ca4e77d26cfed1f1f751b3c0cd7ec00", "82caa4167063238c7c71135f22ccf25b571b", "0", "7664c42ed5f812971a640cb50f823fccd0c7", "4", "3e4fccbcfd518f19d3217c7b7ecfe7f82dbf", "ea0017911b55dd531c897322f5f0a4831401"]),
(146, ["2ca6770395108bf86123f91bec3609023281b", "175c60db153d5386e8302a1a3dfa1bf5fb3cb", "154a16287fd3387178f3cf01ae3bed0c37450", "0", "b299dc0e54422fe1848fe46fb0d82408ca07", "4", "137b622331c4f44bfc9a147ed5998ad074f0b", "16bf3a46134c080c800baff7d73a2b44578"]),
(147, ["68e5b055802e5428b9fde83f5bc8f55ac3c4b", "48932a275f1dabac01078a4b0fb7e6764cbd6", "2052862e2110a87cb8f65df44c110ee477075", "0", "1a396c15600b950a2e7f7a0fd6f23d56b0f13", "4", "23b6d35e91edc82b7c870bdd017b6a234df4d", "5f3d9c6eb97afb7a95d8533881122fee9851e"]),
(159, ["44b30dd646f4fc3afe31dcd8f74ac004a6d85e03", "1719f76c07a3aaf20a9a340857012bb942b606f", "43416e5f867ac18bdd88399871daad4912acfd94", "0", "112cc37591bd3f0ebf8c77363dd2b00129b61781", "4", "1e2a1d9fdac90edd9382d1bbe8dc448a1e4bfc3d", "292c32344365fe377179d5830b0c5fb58a3de48a"]),
(160, ["a3b9fca672d5d5c24b9bc28910eafb65bc25336b", "1e095f66dd8ff610735e0bb031ff788c24520f52", "85b09d3f9545dfb1d83db6d8deeb82d997d32419", "0", "28ee7f299cb5757092e6f0a2443abed96f094cdb", "4", "5c121d03b700a9792ce1410b952961160f924aa0", "11b37099eddc0c681bf371219aa57728fae6ddd8"]),
(161, ["13a9237c27f55fe7b884fad3c033957f29b7f1bcb", "12d408c03c2a28f9d963c94177e987882ab98a9e1", "d51abbebcb36eddf213192484a0df6fefe671ea", "0", "4ea48df09fd57f9ee213eb4f00ce55fca6dfc6f3", "4", "6f950f8f78ecae95426f03da9c1721edf80bb832", "3755fbb50884810206555296f210be24fb0aea0d"]),
(162, ["37a0b88998da0844d49902c18a46a6e8e4b3c0443", "1d10128b4efad3759f8cca41e3879d896adc2280c", "1a90a5fe49df34cf350c387fa6bf095f79d79dc37", "0", "de82e2266368211352640b06291a9ba392cf0111", "4", "24c1e0265b84021ad12fd5eb0d347622d5f7dc845", "1b62e2a930e7cbfed28174caa6bdb02f47b8d5cec"]),
(163, ["6f8ff4a800265e0d211c6b2e5f1948b2b1295775b", "333659583e435c773a71223d9435794bc8f69bd27", "3c599b4fc1e30195e6ab48f0cae3cf66e832bba34", "0", "1be3fd2a0009978348471acb97c6522cac4a55dd7", "4", "3c2f676c032f0b92a44a6a4424727654242e14464", "30ea344fb04a2dbefab3ae967ecf24eb2e7a2cff8"]),
(175, ["4f14dfde979f313b27c1eaf4a7c471e9d9d319cbf49b", "24776d721b4efa79c204a4fb10247394213722afb26c", "2a9d726c7c5036c165bd45f9979ffe55b89bf71c422f", "0", "13c537f7a5e7cc4ec9f07abd29f11c7a7674c672fd27", "4", "1bb33b15bdffd5a27d5c584a126f769a8a814ce97949", "390a324e32abf33f070e75aed86db408862a410fe631"]),
(176, ["d05a7833d6a05dc6eaad8bb3e61f2343597f60b18f93", "58fbd0f41625f7fea19e4aa8a6574214698e062e4be9", "775ea73fc07a65c8490f410b3fc7e12eeff15a8343aa", "0", "34169e0cf5a81771baab62ecf987c8d0d65fd82c63e5", "4", "56bc56a467e4190cd72eb95e46ba95f1149b93ed7e45", "928f4ebad977291942874a363f1d274afe7e344d7270"]),
(177, ["1557454120687e6c358de9ec288953e55a98c5c909c93", "10f3558b1dcadd9fb8edf2bc7bea965ff2135977d68a1", "463efb6029da0cc7c9ff72fac9ebd8568856c51333f2", "0", "555d150481a1f9b0d637a7b0a2254f956a6317242725", "4", "10fc00e19f321e08f83b2b150f1c7ec21612ade3818f5", "b79949c7826aa6cc7368f91e8ca18a2e72489bc2f442"]),
(178, ["2481b9e7dfa4d049c55573c59210e697417f8ba6cc59b", "f06104a5e7d430f28bc6b967b851fcb106182bf65a2a", "157ba99d81278d3a9c99082f168bc6cc311e08e766b71", "0", "9206e79f7e9341271555cf1648439a5d05fe2e9b3167", "4", "2210ac112f24426c4695ccb844b2f81e8ced9034085c1", "6f4bbfcc3fe75001b69715208f602346098d4af4ed21"]),
(179, ["4a880fadd59e243b2d86d35f4b7b3243ded8bbfe84aa3", "15b6ba941d70a0e2e0bac2915d6cd09a604d19b265822", "34d15519b82d83584ccc10cdee0e61a97e8ba24c1f281", "0", "12a203eb7567890ecb61b4d7d2decc90f7b62effa12a9", "4", "3c89c3d0ecc541c163dbda4c0c8e2207e9cebaebe85e2", "3403f797c9244c161587883ebc8c49668ee9ae2ce3aaf"]),
(191, ["5db16755eede759f80879adc5d748a84e7b512dad9b64ed3", "bbb7d816467823226c4951bcb5d0231a3d72b555bf07ca1", "51f5e9d48a76f36d59c305c09217885343dde7857dc5d232", "0", "176c59d57bb79d67e021e6b7175d22a139ed44b6b66d93b5", "4", "1c308377203dc00c1506629dddb8c1393eac6e38278f980e", "52de71f9bd4cb286de64850f5ac910ae3036d87f3172cf7d"]),
(192, ["d03d46622fb664afafd6caf4f4968af4a0a0ad103db60a53", "a8f929b4318b6155bb2f840c1d253317938821a3f5f23b96", "27441cadfe2b0359f4a746e8d77157dd0d188b6c47c3cebd", "0", "340f51988bed992bebf5b2bd3d25a2bd28282b440f6d8295", "4", "8ce635a6753281745da0ef1b812c7d06921c5ae1ee2c84f8", "10842c9df71d99442c841e89c96c145d9b7ae8faa36a4e3d"]),
(193, ["1f1b39ffcb7b0572466698494a792a1fafed1feedce922e33", "141ac645d52b1d6037c83e8b517c1d1b6006ea390f1b5956d", "b0073b9f64fe8120e9e59bdf8fd0d044fe635b5cdcdc98c6", "0", "7c6ce7ff2dec15c9199a612529e4a87ebfb47fbb73a48b8d", "4", "1d17577071370767e0f8b52ee0469360616dca0977c26f14a", "10325ea1c32ad33d3fdd0a914200e24510e3a79ba3fe930cb"]),
(194, ["2c1d268c80f3510068adef12901de73f3ac6739f8d1c809fb", "114a65ba1b798f453fd38213a2f6d86b705be8c82c91aaf26", "1ad2c0d26579c1bb28da6cfeed270ed3ca6a8ad7608ad5ad5", "0", "b0749a3203cd4401a2b7bc4a40779cfceb19ce7e3472027f", "4", "c177dfb8b7d27a3b9310d4c314ba2617c59020ec14568810", "cd053cc15ef7b4a630db30e6f5aa8c054c09e97afd7fd8ed"]),
(195, ["7c81c519a5fa5217867ba09213dc69b6bf1edac01f261c8d3", "301c4ba468e1600f62ead9d376aa8c58a472452ab61ec4fa2", "4c6579753d18f2082390c6be9d31dd5e1aac9595690757931", "0", "1f207146697e9485e19ee82484f71a6dafc7b6b007c987235", "4", "58848cd2b63ab15b66a53bdb188c1b98f2338dd3a9879b120", "4a234aea4539ff65e344f906266cd802061e055a5b65b6801"]),
(207, ["638b8a665dc720c1f337513b183bc86cbf59ac8ff959bc8c09db", "3d46cdb37a08bca9546b3248561931b52d2260963e86875f1397", "2644bcb2e3be64189ecc1ef2c22296b792374bf9bad3352cf644", "0", "18e2e2999771c8307ccdd44ec60ef21b2fd66b23fe566f230277", "4", "592e68ee4bf975954e76511bdb57653dfe6fb457d03aa4c4ede7", "5898987775d72a03e7e5566ffac4d53962ffe7c9d47068714b94"]),
(208, ["add6f1ed82e7768f331157989f628f35c3b957c27bfab09c2cd3", "25f3a93e83f9144be96034bdd91ad68617e90dfdde62979200c5", "87e348aefeee624349b122dac647b8afabd049c49d98190a2c0e", "0", "2b75bc7b60b9dda3ccc455e627d8a3cd70ee55f09efeac270b35", "4", "49651bb8e5a572172398bc64f27d2b46ac2d57f1527a1183f621", "38242082670efeee0c63349e37087b5ac7f76e06caf73227afc2"]),
(209, ["1f233fd561769c78b70538534794e2964be4ea6df5ca7da029dc3", "11417cbd122ac06db1b56ddbec0daac68ca8b90884f3666a82f2c", "de1c3184f4bdc0b054fca775b8737cfbf3c316570d71735a6e97", "0", "7c8cff5585da71e2dc14e14d1e538a592f93a9b7d729f680a771", "4", "15899a7b64529ca982536aa2c60607316983af7275ec539bf1835", "870a25ba6bcef4bc712f407b9fc744ee21a471c0ee0bfd713654"]),
(210, ["24870a241334a04bb5b7af64295ed4ea257601de57f11f64fb983", "24458338672a7e7d26438207a07a2b29fa3f25a7778d7fe43c995", "4186ebac0a21ce8f742d5c88e4a9c02b36dc36e0639f80befee", "0", "921c28904cd2812ed6debd90a57b53a895d807795fc47d93ee61", "4", "bad934c72fdc7335d10e0503838b386667842d7d2bbb35d0915", "157aa5f41e4ac0d0462486c177c2862c075d66dc7585c4c3c11d9"]),
(211, ["7b7430c01b2625e699ebe4b238b9d62d4991d06cfdce20d7665b3", "1496188a85a30dc043cec9bc297682c1ac08583502d34ed8201ab", "66de183595831826561d1af60f43536b9d897837fafad1ff46408", "0", "1edd0c3006c98979a67af92c8e2e758b5264741b3f738835d996d", "4", "1e1ee2efc553960091fc5750d1103ea14662c0e02188f14127920", "53e99ba15e20055b1c3c328163e68efbc935a0d965f6ee66e6dd0"]),
(223, ["4516ec71ecd7d18a73f28eb73c6e818d54d5df94d3c0e17e19e3de23", "12aa4e870da9558b3a68c226aa65a5330e6956c9419fe7775a86dfbe", "326c9deadf2e7bff3989cc909208dc5a466c88cb9220fa06bf5cfe65", "0", "1145bb1c7b35f4629cfca3adcf1ba063553577e534f0385f8678f789", "4", "1eaf0822348f8cd0db7bac5c817824afd0a2ba2f89f5f12bf5a22e45", "31fdcd2617e75208082e4f6b44f787f6d42df449ca5c99c063cd9c9c"]),
(224, ["f69ab59d639eea3e084b73dd5cf622731680b9b6bfe6509170294beb", "a58e5643a21729e4bd1b42dbd0883dc64109481a362e2215a0a672c5", "510c5f59c187c0594b3031018c6de4acd577719c89b82e7bcf82d926", "0", "3da6ad6758e7ba8f8212dcf7573d889cc5a02e6daff994245c0a52fb", "4", "d954946901a8c85bc4936292d72e0192fac0208e0c13191ec9ebcc43", "8f7c35247f7b138141bee22eb6156e0701a33844d689714c4d0444fc"]),
(225, ["1ded477c0a8cbaec49c0510694f8b3ced5e8b1f8c5ec9c083df7803db", "73c0675112a2519088d79261f451bd555bf478dcb162ddab728749ee", "16b14106f96295d34132d7e075b397f980296a6afad66e2d86cf0b9ed", "0", "77b51df02a32ebb12701441a53e2cf3b57a2c7e317b27020f7de00f7", "4", "390c165353c5cbf6f448110c5c8a8df7fb79789011f69c573d352d6", "d838c958892c4f1727b88965023bd43ab22a108c554146195050bafe"]),
(226, ["29f6d34d0e903f354b61c4eb43c6879b814fd97b7aee68f7ac0ea03a3", "22968eea65c87157d8f60f88d9de9c25e50a87cf3d97c8241165a9374", "7604462a8c7cddd726bb56269e7eb759c4551ac3d56a0d39aa8f702f", "0", "a7db4d343a40fcd52d8713ad0f1a1e6e053f65edebb9a3deb03a80e9", "4", "104f6e3e571ad719b4aa066483e5efd33e614808f862dab14c03abd8b", "2707dcd6d20d0820378ddb11c3226cffc05f2b410b48721e7eaa7d689"]),
(227, ["67aa8b5fc416fa47de8faf9e2aac0e0bf86ff183b23beba30ff45ab1b", "2e479d3f5794617e69d53b071f6c64de88e312d402cbb5594c0f6d4e6", "3962ee206c8298c974ba74970b3fa92d6f8cdeafaf703649c3e4ed635", "0", "19eaa2d7f105be91f7a3ebe78aab0382fe1bfc60ec8efae8c3fd16ac7", "4", "2c4b960bf81fc75257a6b630d9b893e947027dcea8f51605cec3e5d3e", "11ac775d9e8814401e9c5c828d1b89ea666d984876e4e643e3763b71f"]),
(239, ["4649da2b475ec22903df0500f5211b25f236f16c457b50b55138b4123d73", "402894263deaef29cf6e8ed53ebea59e3ac41fbe60ac742e10e1e7287f3b", "62146050973d2ff3470762bb6627587b772d1ade4cedc874056cce9be38", "0", "1192768ad1d7b08a40f7c1403d4846c97c8dbc5b115ed42d544e2d048f5d", "4", "8206ad0a670dc56b97f7d382950a1a657ab6704bd259f4c08df675b1f0d", "24b6e52b559321e67d5507bc3076a6ae8e7090ba5a53d2a4fd3b9cff3942"]),
(240, ["988d1bb453dc8579cd999e97c8bae2d04cdfeb5ac2a499c922c19eed2063", "779d3f2d963258261ca5f2b28ff5f103d99473c8262e430b6e555692d874", "20efdc86bdaa2d53b0f3abe538c4f1cc734b77929c7656bdb46c485a47ef", "0", "262346ed14f7215e736667a5f22eb8b41337fad6b0a9267248b067bb4819", "4", "88d63160353d882f3367553f28d0727eef2bdbd57cc511bdddfa3f07b46b", "4c0880821a6703c4ab75f512c09a0eb1fb224b8fd7d2979c24e43258f416"]),
(241, ["10065c20242c82ced92f20de60655881550132f1e4c94436039b4e57092fb", "7854846fc8db4e5ec4182578a7250747faccf3ae3f717d33d2c1ceeed3da", "88113d9279ecde8eced9e86d5f3080cd55463b700d22c62c66f31681bf21", "0", "4019708090b20b3b64bc8379819562055404cbc7932510d80e6d395c24bf", "4", "75bdf3fd59cd6b1481d749144132a52aabf3fcedc81060f03320e4724883", "255558c3b52ef275145cf1956444bb10127069cd10ba54e63fc7481eb3b9"]),
(242, ["34380d820900034bc8c4226330c5690c666ecd331a49d580a0907c874e3d3", "240f9534a20be8a0640c87ca78f72230be296148e32f0125881c7a2eb7c68", "1028784d66f41aab64b79a98b7ce46dba8456bea371ad45b187402589676b", "0", "d0e0360824000d2f2310898cc315a43199bb34cc692756028241f21d38f5", "4", "178f348eeafb8c177d7d36e528548df22d3f0f11e44935a703c7ce624fffd", "df9b5ee47586c5d9a253c2af2c08713aa7c4b1e5bf7f868968b1a88e571d"]),
(243, ["7d0f8c6bc31f80112cf96e5df911823637cdc2bdfa9ffa96c6585402b17db", "62d001e6aedeb3364fb052afb221260370d738ba4ec80c6cf3673d14a4a55", "1a3f8a851440ccdadd491bae46f05c32c6f68a03abd7ee29d2f116ee0cd86", "0", "1f43e31af0c7e0044b3e5b977e44608d8df370af7ea7fea5b1961500ac5f7", "4", "7869a5619a94ddaae210a9990ef62cf4205ec7965992f98c1bf82f58d3c94", "66f497eaa9590e55668da14b7bd1449104696402116a0d9687f64c2302844"]),
(255, ["67efc1611ea720f0022a31c27870b5f11f34aa751942866083517d6dad480ae3", "14072644baac00aa2f29ec0b2364fd1a402aa811ebc038a7c1ea8d1d1e5e414b", "53e89b1c63fb2045d30045b7550bb8d6df0a02632d824db8c166f0508ee9c998", "0", "19fbf05847a9c83c008a8c709e1c2d7c47cd2a9d4650a19820d45f5b6b5202b9", "4", "45f56d84a283af8e46ae71cf07159a9880f03b6a308f060a6d900a85c2b0dfff", "56a5d3b2334dac0c284dcc58a3457f4d0edec18c4986d3f95b801f22eb848223"]),
(256, ["e52f38c1a382c3f83ed9faacf6855ae889682687565b7bf6c58d1051edd0c493", "7e0f4f585442ea5357a52c47a49f23578c79d8a4bba657463c0ff8ccbae258a2", "671fe9694f3fd9a4e734ce6551e63790fcee4de29ab524b0897d178532ee6bf1", "0", "394bce3068e0b0fe0fb67eab3da156ba225a09a1d596defdb16344147b743125", "4", "f3cab64c8295570e8899bd78bee809e6a08008f3204e3949f59267c0bb90517", "e01c0e179ae7682d59238ea2c2f47840170a646a783e956b027c740d9cfeacec"]),
(257, ["10fba4af758599d50f44a8353a2f8fd6875cdd18008e04f844023fe52002b7b43", "8223de77b07807afc4614e33914604ea3a640f50e4cd2726f3b6b9a8bf3d2988", "8d966c7fa7e195a12fe9352011b2f87e3b69c22f2413285d4c6d44a940ee51bb", "0", "43ee92bdd61667543d12a0d4e8be3f5a1d737460023813e11008ff94800aded1", "4", "8058569934b99bd80e66e95e586abe5463ff925e52c5898204fe862b89360042", "aa5051af564c95acb2c7781f35a6be5d1cbafa6f694c48c3d097e9f71ad42520"]),
(258, ["386ca3579c0345aa751b09506ad627645093f6f7cb1c9d8ea9f8cd49cc86b788b", "24785131b32d6c757f9059f5b63502cf14cd411231114286f2cc7e422578e2e96", "13f45225e8d5d934f58aaf5ab4a124953bc6b5e59a0b5b07b72c4f07a70dd49f5", "0", "e1b28d5e700d16a9d46c2541ab589d91424fdbdf2c72763aa7e33527321ade23", "4", "1194afc52f8083167babe22569f745d06f1e332b59d9720c644f02ab782142974", "18ee480b4b93c62ec43759eea3c5e6457eab8ee4691df15dce9c541000be70a85"]),
(259, ["558560b4aaf15843f3b22b43da67f81f4d81ebf5b10519241ac80767f0eaecb63", "3a1e72bab8499b8cf1d08f97ce4da27d8ba9a4f58934a2ada8999e905613862e", "51e37988ff6cbe8b2495224a5d831df774c751a65871cef9403e6d7eeb89b4535", "0", "1561582d2abc5610fcec8ad0f699fe07d3607afd6c41464906b201d9fc3abb2d9", "4", "23b05fb544373f215e03055f2cad7b7a0039d6660e409359cf2c769fe1da9a6b0", "49ac3ae75b40ae2faf2c4654730475e87608d34a7fedcb98ae0ce560eb7c8d8fa"]),
(271, ["6b0e9ae9a867343d06308434624b4bcbbb8fcaf44882353c3b937160a64e0e401fe3", "5f0cfef98ac9e3ccb35dd3efb97b883a8a2ea0567438f651ea4d1faba67b17f96820", "c019bf01d9d507052d2b044a8cfc39131612a9dd4493eea514651b4ffd2f646b7c3", "0", "1ac3a6ba6a19cd0f418c210d1892d2f2eee3f2bd12208d4f0ee4dc582993839007f9", "4", "1aadb2a3255e7951b157b0242c164648f84555a63197428a0cbe27539fc83b20ab93", "2845d8b71f25e879fdd347ff7fdc22cdb4e94d0a1750925fe7b09d4fb4569ea13e0"]),
(272, ["8ad6915a2ee8adee7dd60591cc087d2af2472ad9fb8d6073fd3cd623d56e8c273aab", "5f25d0a52f10f036a6b8831803a06a0981c8e8ddb3406336549ed77ae8092f17f960", "2bb0c0b4ffd7bdb7d71d8279c8681321707e41fc484cfd3da89dfea8ed655d0f414b", "0", "22b5a4568bba2b7b9f75816473021f4abc91cab67ee3581cff4f3588f55ba309ceab", "4", "370396dd5c5e919de36a4e92d81e956ea802b27d8cc17075c2a65ab7a124fb38c06", "424af47ee1c5ba5d69a759a1651c92ca711c942dea0ceb2b5d019b3786c589a68c4"]),
(273, ["186ef2f176a5cdd5d861cbec0b350a89d0c32d004f7ce56f5a5e281ea03eeaaa2a89b", "1df7e5c971ac216213c4bd253762534d0f36ff74b0a45fbf143939f4eb2f60639e37", "168f7494df8b0bbfb7258019b7bee554ffcfbd0904729f73691a947f518bf4a3f0a64", "0", "61bbcbc5da97375761872fb02cd42a27430cb4013df395bd6978a07a80fbaaa8aa27", "4", "29469881c296d7460ce602818850318722bc6d5aca6a70bbf040c3f77d9aa43ce8e1", "6d9c971e699fe3c194eac67f0b3fcb8caca6cbb4a28da1c30ccbe218121f8735335f"]),
(274, ["2fdcb4a742f1a4b653bb6e02cc172ad99367c4402d03a8ed73106a7d9be5a2663f10b", "2894eeabd194c56c2914ff9228d6d7595cac4f2354febb22d1886741b3c366419032a", "747c5fb715cdf4a2aa66e70a340538036bb751cd804edcaa188033be8223c24aede1", "0", "bf72d29d0bc692d94eedb80b305cab664d9f1100b40ea3b5cc41a9f66f968998fc43", "4", "5216f22afc71c48b8d3fdc801541a1c9e52a040cd23d2451e262f79274e64f31cbf2", "c702d1e5732de1b6119da9ea11cdb00729b331ecc7402fad982dfc1aef4fb1a51bd0"]),
(275, ["645ea117ddaaca008edbe310243774b00ccfb1f7a895bdc846938de62fd31a0065c83", "1a114f12ed75b4afa0386353069251b650ce52ceaa78488f8ff14e8f9aa546d8b9851", "4a4d5204f0351550eea37fbd1da522f9bc015f28fe1d7538b6a23f56952dd327ac432", "0", "1917a845f76ab28023b6f8c4090ddd2c0333ec7dea256f7211a4e3798bf4c68019721", "4", "4d527c15af75cc8b29d692a3a825b20478869ad3c5c76e0e28487d2e6984136b4f73f", "14cd3363a3b118979677b1de2c6eac8c7ab6aaba300caa54a8d272b0cb4efe6c662b8"]),
(287, ["6aa192c1469a0ddaa8bf7612053a575f84773412f1c68ff716011029d54bc1bf1c530723", "40aac549087856e35052cd95fc326bf26114bcea16f4eea45b8c39889c921423130cd73e", "29f6cd783e21b6f7586ca87c0907eb6d23627728dad1a152ba74d6a138b9ad9c09462fe5", "0", "1aa864b051a68376aa2fdd84814e95d7e11dcd04bc71a3fdc580440a7552f06fc714c1c9", "4", "7100b45bb6d898628186c559d208883eeeef6b0cec0e28705af6e2b6f59a48a30410bc7", "6471ba1ed6c1370e4d84c51bd28abcc23a9402b1acb3b7f17fdf32b5623256215fa6bfa8"]),
(288, ["cb72f69b9beef821826ddaf92fec711f0f7929d1b7c8a4d35307e37b7f93443dc03b7e53", "70e225c9018dae6623cc4eca5fce61f00f462d49f6747e923e563756a4cc9573dd2093fb", "5a90d0d29a6149bb5ea18c2ed01e0f2f0032fc87c154264114b1ac24dac6aec9e31aea58", "0", "32dcbda6e6fbbe08609b76be4bfb1c47c3de4a746df22934d4c1f8dedfe4d10f700edf95", "4", "82b125f2d8ba08e2839fabf3245f776ede519817b96beccaf27e94d3811061c4b0919846", "5a67b76fbde18f9e1a2fc16984330c4c1bb14552a2ea09ebf5e92280e76d6b57aaf06d6c"]),
(289, ["1d26cdf5432c624b073cc3377e9a760e0611e0a7824969caa4f65aee139351e9b29b9f8fb", "16abfe2a4951dfaeb4fcec8db7934c25b18440045fc061b4e62998739f17562dea62285b0", "67acfcaf9da829c523fd6a9c70729e8548da0a322890815beccc27a747bfbbbc8397734b", "0", "749b37d50cb1892c1cf30cddfa69d8381847829e0925a72a93d96bb84e4d47a6ca6e7e3f", "4", "12d13e33987feeb8bc35772d399a176b4604134800c3a0f0a12fe88c3872ba1ca27de447b", "14f47e9e6ade52d7543cbc7adc422fdab929f1274f8d711e0a514419cb0451cf549940cda"]),
(290, ["333a5c1c0a96dbd7a1823dd8ea586791f661a5717099c7a87d49bd7b6351199e735deeac3", "8e1a9db19de4d98483d6e6cbc1122777a8b4eded04fb2b16f97f299135de1fedb658e666", "2a58b240f0b88e3f5944cf6c2e47451a7bd65692a04a14f70db1cae24ff3379f97f86045d", "0", "cce970702a5b6f5e8608f763a9619e47d98695c5c2671ea1f526f5ed8d446679cd77bab1", "4", "2878a3ad573756b0269be3d8c5ff68d1943b1eb5531237727a1274968cea293fbfd7d08bb", "2902908e620a5426b9f34f9d5b3f3da24aeb1ecf68f61d0966a7997217ebdba8758c336bc"]),
(291, ["69e7c7cb5ef1490d97aae4ac3b61333e0b946936af50f7ef3642910c68dd3b4cb0352fe83", "397014c443052d38a45be64a57f67c4a2789cfbe23dad7b8f161d624cbbf5fb44eea0874d", "3077b3071bec1bd4f34efe61e36ab6f3e40a99788b76203644e0bae79d1ddb98614b27736", "0", "1a79f1f2d7bc524365eab92b0ed84ccf82e51a4dabd43dfbcd90a4431a374ed32c0d4bfa1", "4", "51764e0604dc3af081880bfb19b37e035ff9a9513b541ee06fb10982a78f2657943d6dbe7", "6115f4d2b03d42caad09b32c0d47efda675ed4378d0dde5029174cb902a2a8ae1d76a479f"]),
(303, ["56dee6de838dfe6d36c5c0af66f3c4a416d517d1718df554e1bb1992f2dcb51299f8b5e90753", "1f83cee23f19bf8567a01858fc84b1840a4e123c80d6d41e8b13406da51a26d12cda340fcb48", "375b17fc44743ee7cf25a8566a6f13200c870594f0b7213656a7d9254dc28e416d1e81d93c0b", "0", "15b7b9b7a0e37f9b4db1702bd9bcf12905b545f45c637d55386ec664bcb72d44a67e2d7a41d5", "4", "42c2ba788dfd661cbdfd064966c6d943a3dcbc81efe2f30d904b420f9df40c839b98ba4444df", "3f595406e8389bbc3f1202553cbded10fe7254a00d07418d6f8b87dd01f074857f2ed33fc3ff"]),
(304, ["a64377ba181bf9736d88e40c9657746351fd37bb4f7888149976239cae8f64aea023d10dc243", "4cb6b1cab9f71edc4e64e3eeb2ab7278446cc1870dc278a0a5106260360e6bc8b2903feb2bc5", "598cc5ef5e24da971f24001de3ac01eb0d90763441b60f73f465c13c7880f8e5ed939122967e", "0", "2990ddee8606fe5cdb6239032595dd18d47f4deed3de2205265d88e72ba3d92ba808f4437091", "4", "4c774bc797cb7469358c1933f265d96fc0b7d2c37bae2eeb1af3e25011904b562c46ef614e0f", "8eb2e285244214b144e7db579a0361be0df007f7d2e6862d2ef47339656770b9609abf4f268d"]),
(305, ["122f4656aecb8c635bfbbfd3b74de124acdde2072f7250741c98aee604d1be36d79957c12bf9b", "1209692f6dcff804f78951ac5d81be7d15bb40b251f94525d546a6e803c9b496e3c288f3fdef1", "25dd2740fb945e64726e2759cc22a79722a154dd790b4e475207fe0108099ff3d6cecd2e0aa", "0", "48bd195abb2e318d6feeff4edd378492b377881cbdc941d07262bb981346f8db5e655f04afe7", "4", "944769c328cbe69856a5a402bf11ce625427038ee4d6be54dbb5405864e843387068e378a028", "2effa1db7efd63aa5df7994f3d5e47d77e8b22feaac52eb98561ad0466710befc95b1a964d04"]),
(306, ["2e81b0363182652c3adb5550c186d0ebe216d4596884e746860bfcaa583b962aba3f28fa25133", "701d8f2150be140faa8ab0a31726a0c8f7f85231a13221e55d9ef2beafb425b9754179d8cd46", "277fd7441c7683eb4032aa46901466df52974f364e71c52830320d7e6d4053cf22eb115c983ed", "0", "ba06c0d8c60994b0eb6d5543061b43af885b5165a2139d1a182ff2a960ee58aae8fca3e8944d", "4", "238828a714367c10b4f20201bc681d662423f85ef73c336f21c1f9fe727c2b3f0fee40eb8578e", "448b0927e17fbb232ba06ad0c5166661a34e502140c667c15a7ee863c09d21db3ee52d5e1b5b"]),
(307, ["6f616d92f34d0c41dc9915643d0bb2b6ef5613da08a6a6bbddfba25b3fb6554b99be69fcc14d3", "367fabdadc4acc16d4a46081a00f4b9d9229d7409460ff9ba18609b2cabde665e27e2ea371609", "38e1c1b81702402b07f4b4e29cfc67195d2c3c997445a7203c7598a874f86ee5b7403b594feca", "0", "1bd85b64bcd34310772645590f42ecadbbd584f68229a9aef77ee896cfed9552e66f9a7f30535", "4", "2dd4a1e7e938ebf2ebf40d97b9633e2d042c9950c7c41587366a708d1d7834700320a6d094da3", "6baf98a8ebbbcd51efa313b46e3ffcb82338e2690e44274ae020739becef6cd384e9c24c0d281"]),
(319, ["7345b225c22280a7809fb000e8f2f97be75adfc94fdbcea762add2bc1fe9ab9ed1c085c2eeb145ab", "3037b05b635d879ca4cc1c1b674bcb9658d1b2179d2566472b605dac8c4ba2e32a9e05c639bb1127", "430e01ca5ec4f90adbd393e581a72de58e892db1b2b66860374d750f939e08bba7227ffcb4f63484", "0", "1cd16c897088a029e027ec003a3cbe5ef9d6b7f253f6f3a9d8ab74af07fa6ae7b4702170bbac516b", "4", "3bee875e4458a60bec8f23f28d01d20fb5c552ab9cffbf399b60b7efa8e5bbaeb186a4c9e31cacbb", "13ab39a1ae8a37403dc9ddb0ea9195c7d313f0fbaacfbf2a5dbf18cb5d504dd2fd98c5f4a18919"]),
(320, ["da1eb4985e77baf9596b35ca4c3f2a5783b07cbc5ca3bfebc9939c0532477b570caf61f4c27089eb", "9d0d1bcbf2c67407fab7649af06eb1947a353f9eafc3c0d0e0618a6ff8602af72cd9a5a8f2e5d39a", "3d1198cc6bb146f15eb3d12f5bd078c3097b3d1dacdfff1ae932119539e7505fdfd5bc4bcf8ab651", "0", "3687ad26179deebe565acd72930fca95e0ec1f2f1728effaf264e7014c91ded5c32bd87d309c227b", "4", "3374f02911149d6d65a9a29edf6127b4c4281e0450e2766bb6c25dd46d071500e4988862536d14f3", "25f2a295ead57d8570dddd184a7d0391178d0c2093de2c2ea838440f7734e779e1b73b452885fadc"]),
(321, ["1db6e37105bf03db470a230d45995a1776a379868811726533eed2a2ffeded87252d12c4f7ae6a9e3", "101a700a379e6bd4fae7e0e6f639134ad33ec95303c91e91de6dddd70dcfb8135c9ba3a81e76bf5c5", "d9c7366ce2098064c2242264f6046cca364b033844853d35580f4cbf21e3573c8916f1cd937ab41e", "0", "76db8dc416fc0f6d1c288c351665685dda8de61a2045c994cfbb4a8bffb7b61c94b44b13deb9aa79", "4", "2292ad69df5a4b16f134d95a334a27cdfa21d32e33dbbdfccfc672687748ea79c3c7e51146c09ce9", "df38ffbb721e510b4f8309c86d47174f45f90c6924aa6d1fa25e6ad7995cb01715871a4fcc1840ce"]),
(322, ["2cb7d1f4f33302d0550886087f320fc58a9a4e343583531b2937b963717879d6e7f42d6b776cfa82b", "e539f0ad51ebc704c830f451e27c4723de4233cf49f8e7940a9a4269dd52f10039926b5c84dd5339", "1e6432ea1e144660088576c3610a4b534cb62af740e3c4a1e88e153cd3a34ac6e45b06b5af1f254f2", "0", "b2df47d3cccc0b4154221821fcc83f162a6938d0d60d4c6ca4dee58dc5e1e75b9fd0b5adddb3ea0b", "4", "63ee8e993c88a689af22b8cf787af7dfd2634d522c00ffa3c30b77f6dd6ed1ba8d6d63f4fc67ffb0", "2526dad1ae9404af12ed344e0a08d0fecffe3a9855bad8e41ce40a0f3ff7cd509ded1fc4cd39890c"]),
(323, ["7a04b9a6deac9f819505052e13084324e667d7708887841840eaa62e3498d8e78e612fe49d8ce6b8b", "7887719db3b3afd2ecf187d996b9c20372df773768605b15589250454d505557eddbb718d0ea41be6", "17d48092af8efaea8137d547c4e81217388603920272902e85855e8e748838fa08578cbcca2a4fa5", "0", "1e812e69b7ab27e06541414b84c210c93999f5dc2221e106103aa98b8d263639e3984bf9276339ae3", "4", "16e2a1b2c599e213a952150e59a857941df32d1172b18eff4d5504e305acd888544e1fa7a7a0b3900", "3e5266c93d2a3e4ee53635aac097c1c7a99c1bf955632422d7f3dcb28d0701ac8327677f41dd027ff"]),
(335, ["41f3f6092c335e7dea9348be9d6af5dbd4d138b295921fbc03cc5e0f908260c54a9b09991d84a7719e13", "26a0d7f6f0d0d3d662a2a19b9bba2801b16984214c7474588dec0ab42ec1f615b431939bf7e1f8fd8e08", "1b531e123b628aa787f0a72301b0cdda2367b491491dab6375e0535b61c06aaf966975fd25a2ae74100b", "0", "107cfd824b0cd79f7aa4d22fa75abd76f5344e2ca56487ef00f31783e420983152a6c266476129dc6785", "4", "3b298c7516c208e8562b2886baecd7ba5c1baeb0712260cd833256162512398f5f47e7480ce762d298b6", "88f37154d8b1a9ea51b224197e456f04e22e5477c78059be6c3886d338d4a2c1f20fb6d936600222256"]),
(336, ["fa1d4731e9d9e6465b55f2deab1e08894eeb272c1c27eb9e57b05e1d2515481c5d12ea7495c5f56f0553", "a5484c8ffb87d0ebf09f99eccbf602fb1978ec9068a83460981c5f6e6c0c08d7a0cdb7b2d297cdce5e52", "54d4faa1ee52155a6ab658f1df28058e35723a9bb37fb73dbf93feaeb9093f44bc4532c1c32e27a0a701", "0", "3e8751cc7a76799196d57cb7aac7822253bac9cb0709fae795ec1787494552071744ba9d25717d5bc155", "4", "880e76ec41eade7faf9cdd93b77ce93da7f6964d21c8b9c3fd1a38798536ff2247313cc46ee67a75dd9d", "c8eb1e27e2ae340716e1a8626bf35e3d0cf35aa6183aa0e6d806f77ef8011a78152bfa244df11e3d8943"]),
(337, ["123a49a42f1ae0469326953a504774361176da5fda98272b1fa385920aa3aeda69a99994426a1b8e6054b", "fda1bc3c69d39026425359a23258271bf6eeab5bd29bdb4a404cc7fd2e8843f1b61bc19b5ebaf15e2f16", "2602de0687da7442f015fa02d21f1c45207efaa1d6e69767b9eb91237bb2a9b4e47dd7a8c7e6c787d635", "0", "48e92690bc6b811a4c9a54e9411dd0d845db697f6a609cac7e8e16482a8ebb69a6a6665109a86e398153", "4", "11c4caa70009f8727bd27d5796c04998ff90ea09ebff19481b6e43e29bbb55f19ecbcdd72a01444dd41c2", "88b5989c18d2a42e106c86a9fa768356984f12ada6c9c535dd97befc70ca229b01a432df51138a893b1e"]),
(338, ["201d72142e441aabd1136efa58b195166b9c5c08085c1f7e1c3212286dc0875ac8a1fe27047522478f16b", "3b50a092b521742f8fd5445047a415d048f7b663e619c4dd7ebde1bd21cf2c89d625ff270ea8dbb68ba4", "1c68680b02f20368d8161ab5543753b9670ce0a1c9fa83304446340c9ba394922b3f9e34938a948c265c7", "0", "8075c850b9106aaf444dbbe962c65459ae71702021707df870c848a1b7021d6b2287f89c11d4891e3c5b", "4", "962eb368855356d510831e754b5ff9911125c8524828b07bd406d445e58ee95c74d509278fbfec256dad", "13519c37c8017c6d2e4e9cf71a4b6d2f156a54198f4ab990de20237dafdefa8f6f4c4adc73d266e50b45a"]),
(339, ["671f9484cad1a489190ade01802603fb9bd7e3821f11266e4648344d617560f8d7201539ad979c547ec23", "15814a0803a78ef4f6cb644e493269dfedf24560afe93addeaee20efe1ea43d56099f06142d0a29a63db", "65c77fe44a972b99c99e27bc9b92dd5d9cf8bf2c141292c06799523e6356bcbb81167633996a922ad8848", "0", "19c7e52132b469224642b780600980fee6f5f8e087c4499b91920d13585d583e35c8054e6b65e7151fb09", "4", "cdd81979f13e96972996cff0de1d7d85395e44cf1caab49b35ab3dae7d26dd6b65da71a8224bc1131c50", "40fbff55bfdb29c08ed60b4f41826a85fe03ab13565fcd8595c608c4b81bbbd5a8a3a127e50842175fc7f"]),
(351, ["7c1a2f60ce407d29e186bbbbddb158a1d01a0d350324675d35219b9049073636f1ea2cad7135063f80b8712b", "211ff6baf1a697ab56bdf021c05c28422d87dfbbb970228a175ae2df7353f6010a0a5b4a1ba9044432cbaa60", "5afa38a5dc99e57e8ac8cb9a1d55305fa2922d7949b444d31dc6b8b0d5b34035e7dfd163558c01fb4decc6cb", "0", "1f068bd833901f4a7861aeeef76c56287406834d40c919d74d4866e41241cd8dbc7a8b2b5c4d418fe02e1c4b", "4", "5ddaadd614e8e0ed9a3c543c41c5226b30eaad9bb71d8ad21de5fa83a211162237f766d9bed440678cc5ddb3", "284f1e1e2f22f9c592ab01ce7ae1ace8a0789fa6395e3306a6cc2c73063901c7e4cc11696331c268efebd238"]),
(352, ["ea302a6bff01cd9fa33ab83434d2dae450d8fbffd827b9888a1e69146f807b6d11c04fd24ce7a965da12b46b", "aa9d2d746930b3c7293d9121f890448019af933f431ee69a734229320ef6c1bc2eeb3f920f4bc992a3713380", "3f92fcf795d119d879fd27123c429664372968c09508d2ee16dc3fe26089b9b0e2d510403d9bdfd336a180eb", "0", "3a8c0a9affc07367e8ceae0d0d34b6b914363efff609ee6222879a451be01edb447013f49339ea597684ad1b", "4", "7ff918bba6569732e45276a06f4a54509fbae923e8ae855a261f6a5ca348bcb172c0b6c9e923b64b566944f4", "45a7fe944dfd3a440a913b36e86f3db263543cdf87e1ccae3a4a4d2b57c114e3788a1fcc50e0ea66c990bc4f"]),
(353, ["1a2f3e14177f8b0fd3a20481a89087c380ac23bc5ad7b4d419917d199571fc5821793c1ed08fb39f0057e289b", "13406b1bdb38d4afea6622cb9f504b47d93a3053a88659e345c9b6af8e04364322a60edc2d04f71eb37874da8", "6eed2f83c46b65fe93be1b609403c7ba771f368b2515af0d3c7c66a076dc614fed32d42a38abc804cdf6daf3", "0", "68bcf8505dfe2c3f4e881206a2421f0e02b08ef16b5ed3506645f46655c7f16085e4f07b423ece7c015f8a27", "4", "104e520d56325edecfac2a7d33b6776bbe6686ea6b856212f87f46a6b0e2b24e512516e71d142dfcff960ed0e", "cfc2c59242537b88301dce8ef0940bcb3c94fbd77b76a5b0c5e3dc91fe171d574da9a3b73aa281a6ba8aa04c"]),
(354, ["319206e64e0e45d9cae4efd921a52f0f09a1eb9b0270d54ea3823c505c8a38ec70b8611b56e118a882a2d1f1b", "2e298eb02983b6ca72e046b51afe2607127952fb05d769c7a1819cb21e48f5bedc40d141a33e629525163083f", "3687836248a8f0f5804a92406a70907f728989ffc996b8702009f9e3e41432d94778fd9b3a2b6135d8ca16dc", "0", "c6481b99383917672b93bf648694bc3c2687ae6c09c3553a8e08f1417228e3b1c2e1846d5b8462a20a8b47c7", "4", "2858f5b458b9853d8f1f457600dca064121c00740fc7d992cfbb21c4d9a4a004d6213cabf47f96a6f44808765", "1e9df66103a17f6cc0ffb618f132a28d73a7591448d954615cc356a39901d52f71ee9a5cb921e48203996b51e"]),
(355, ["50698c73e54c31162fe66dae129d8b5684030081cb2aff92e88f19edd56b4206ad777f6f55bd261e2b217cd2b", "26a8dee0c6fa3a4c1d476d55ff451f29badf4bc16fccdb1fd931ff387c6d8df19e8674172f357ed1c5acadc4c", "29c0ad931e51f6ca129f005813586c2cc923b4c05b5e24730f5d1ab558fdb4150ef10b582687a74c6574cf0df", "0", "141a631cf9530c458bf99b6b84a762d5a100c02072cabfe4ba23c67b755ad081ab5ddfdbd56f49878ac85f34b", "4", "215da6eb0b2490ccb690d7b625691264c0f9c6a8dd732b82b779677e341b466598bbeefba63cb3a7735e2475", "36d390fb01382fca93f9506f4013fed3c79bfa0cc3ec68b32d67e9d5fb040816015e90bc40949bccc0b64772b"]),
(367, ["551741bbc73b4cb36ae51009683f1681a214f007a9f744f39d0f4b80e114326b520b442302e4f5b6013c203cbcdb", "1fb8d52fd0f92d13a53cfccfe0769fbff76a00e302146769797ebc78977c5dc82dfd4d1f2892ae89b8a00325b33d", "355e6c8bf6421f9fc5a8133987c876c1aaaaef24a7e2dd8a23908f084997d4a3240df703da52472c489c1d17099e", "0", "1545d06ef1ced32cdab944025a0fc5a068853c01ea7dd13ce743d2e038450c9ad482d108c0b93d6d804f080f2f37", "4", "2dbcaddd13712fa33e58b85b39caf459da948d2da2395b30daf84a0f80cd74b50e3209c60e7bd2bcc543e289469", "4cb19c8df2f28031125c3c00121f8f854d082ab387284dc67390080451e2b10bc7afffa2a327007f7b3ecbf54b0b"]),
(368, ["dd06b6cf6f67e08acd08bf68b456dc9e68b344f336eda2296d17a08dae8a828450c4101deb3541eb96edf06d6823", "a1b519d46781d87501ee605c192077a2f8340980463f5a4a9701c4f6fc2a08abb5166811d8cd028c3b84a36a2d81", "3b519cfb07e60815cb1a5f0c9b3664fb707f3b72f0ae47ded615db96b26079d89bada80c12683f5f5b694d033aa2", "0", "3741adb3dbd9f822b3422fda2d15b7279a2cd13ccdbb688a5b45e8236ba2a0a1143104077acd507ae5bb7c1b5a09", "4", "682593fbe7cc847c876f1377a864cdf0a559353e428d15a3fde160df61841568b9e837a5e17dc5309a066e6f4444", "6baa0799fd22023b692a56c227b722bf89d1a6f75a530ee8cbe7c4ca3242dadc797b5fac0c0ba7a173ebf0066073"]),
(369, ["126035ba084c23d749f1e32a989a819a924764fc73f134d8a5183a47f391298ea7bd97268bbb1439fec3661c1443b", "669d1885fab0563a0d8b701c485ab53105b59dd420eedb1b5138c6d19e29ef7f6a3693f768ed6614ee78ede3db33", "bf66431a8a11e73a9192c28d414d64781ec0b1f31e24726f004addad9ae8a96b11a2de7152c3dd8afdbd73dd6908", "0", "4980d6e821308f5d27c78caa626a066a491d93f1cfc4d3629460e91fce44a63a9ef65c9a2eec50e7fb0d9870510f", "4", "11bae384e46f962f683c646cb6092737267c18e30e562af5eb9d9ad85e3b18a75b176f65d468197b5ea7400013925", "a3518ae60caf3fb2ce84583ca518c2ef3e97b638412fee69ed5ac0b84a62e72b9b497f38ac1a27cf8c79f9f2bbc7"]),
(370, ["382f4e18de863c5357aeeee936e1049ad42684914e317bcfd4fb3df5f2a4ffc62946d245a4f0dffed5181d4e2e0e3", "1f48a8320761f476f5a1e19b56fc2174a6368e3b2419372cab1a8d84ce45b6e7caabb6c6905e66b52a1a5604a8a7a", "18e6a5e6d72447dc620d0d4ddfe4e3262deff6562a1844a329e0b071245f48de5e9b1b7f14927949aafdc74985669", "0", "e0bd38637a18f14d5ebbbba4db84126b509a124538c5ef3f53ecf7d7ca93ff18a51b491693c37ffb54607538b839", "4", "2e45be1f900164f31fe4cec5fafefe7f79575f56301d05247842974a1af0fedd7da946c2900d393d2973ab924659a", "3871970aedef5772bb5e68284e02df89c9573350e4e25bf5f9cf9fbf70d4d9a096141278207a30e4f527851f2809"]),
(371, ["41147515322b7b0e1e8eee2c8bb9731a0f25f876a6d37c08a90bfc9fff9e3d0b7a9d256d4faf9b3ea4b007b960e3b", "37cd77c09247bf0d0068c58ff311c49c09c8ebac38d0bba7c997ba5b46c65cdf0bf7553dcac2085b0cab4c7c92d75", "946fd549fe3bc011e26289c98a7ae7e055d0cca6e02c060df744244b8d7e02c6ea5d02f84ed92e39804bb3cce0c6", "0", "10451d454c8adec387a3bb8b22ee5cc683c97e1da9b4df022a42ff27ffe78f42dea7495b53ebe6cfa92c01ee5838f", "4", "201a8e9e5de15505d2f8c6561ffe3f89257f1027a4cdc382ec9dbc4f23a4538290372882e1d50b72dc4975d7fb50b", "3c559e15f9b8c1f45be64d43a85a67621f0bfd684539890f016a91233077c164779389b060b9898f5c930bf90b40f"]),
(383, ["6a814c5e2d83c02fd357b31ed131f0275afd18df11daf05fab2016c50e53b44344522e6d50d86a14ad5af7b1ecc84c1b", "cb502813ea46da5304582e4f07b4e393dadd035b6543db96e90a5aaa6340743fa374bb7ca9b1c84ef17188273ac8427", "5dcc49dceedf528aa3123039e0b6a1ee1d4f48a95b86b2a63c8f711a681facff4a1ae2b5863d4d8fbe43df2f791bc7f4", "0", "1aa053178b60f00bf4d5ecc7b44c7c09d6bf4637c476bc17eac805b14394ed10d1148b9b54361a852b56bdec7b321307", "4", "60eef989ff42a3b48decb137753dda0ef430120b6deaa9a9d759c8086edc16584fbd364839503edbe340916277e3a5fc", "3c7c5e4eda0f4ea3bbb220bac6ddb6fd9b8bb1e607faf782c3b9c944d2acf3c62045a1e4114378cfe9215ed23f4a54d3"]),
(384, ["82727e4396655b3e84b9f8f0763d85d967016d3270a05fdf4ea6103f032d9077498f6e95273cfab0a0399fd32552157b", "31b76930d2a6c60a6bac899ae77f843149259792ac2483ca76defbc9c67b8a7de379ad6c70769935116f0b06168d9900", "50bb1512c3be9534190d6f558ebe01a81ddbd59fc47bdc14d7c714753cb205f96615c128b6c6617b8eca94cd0ec47c7b", "0", "209c9f90e59956cfa12e7e3c1d8f617659c05b4c9c2817f7d3a9840fc0cb641dd263dba549cf3eac280e67f4c954855f", "4", "3a1e596641904d335ebd650d3074e6b673cd7ca8505b4c24bbfe1513a5015bdbe826ac9f885f6d28d57c26030b366026", "6edc7f368af8d867db565108c75de77ca1181db333226d0882c9eeb7f1f651f7b9e2aa95c36693fdc11aa1611a9fd800"]),
(385, ["1270225a36dad6201fbd6f418581327ac1cf2c98151d5e6cd686f3cb2a1a7aa0991d1315bec7fcfab1a8a7a03e2dc9b03", "70c0cf180e2b4615450e393c6adbdc1a890b6f281827c632c948ee4ad1d30c112cfb79cb8c0e97a82c283e6ab24f2ab1", "b641568b5f821becb6c8badbed374b9193e75a5939ae209a9f264e67cfd49df864d5b79060713802ee623b99308d7052", "0", "49c08968db6b58807ef5bd061604c9eb073cb260547579b35a1bcf2ca869ea8264744c56fb1ff3eac6a29e80f8b726c1", "4", "3311aeb49b54875038e0fc8a33c08200f37424f6e8e28ce7c290639546c6a73eae17dbc72f9c15a05dfd646c706b7384", "bfd1491a0ca909d9bfea0efe9c7c381040f37cdfd88902cc095d7dec4e189f5c3effc04b7a6783564150a2c04e249275"]),
(386, ["20c520bc1ed73d7e7dd8e9fd3ec24f0785508740de4440024af624ee56c1e752685e4c291bfc9ad0d80261a57a9441e6b", "2bef34dffb58c2c44366e7265ea06284d165353437b1c02596094e42cb3139bade3a3dc107fad946ff5957fe50305c3e", "1e062d6e1f21b15239a27b8ad8d848df383a33ed9ac923fff195900a2a0ed3b6ba7aa84d0b7ced3c680ccc2595913c22d", "0", "831482f07b5cf5f9f763a7f4fb093c1e15421d03791100092bd893b95b079d49a17930a46ff26b4360098695ea51079b", "4", "19a98a1a6863a7db3f43f50643504dcd9b0948afefa76102f5f9edb0d8cc5c3e29a7c22313e199cd1456902f6da9ff5f1", "8e77d92b28a89b2a4b4245731ca1493214c1e9ee27877cdd8df4b64ce8e8e3ba5b7af26134e5d92db5e1c86a72375c69"]),
(387, ["5fb48646aa6fcf4c863a08492fb6d5032c60d5ae204b977c8f56c78e7d4f6107a389ee028dc1612ea9e13215ee0825283", "1b5f8e5b792adc9101bc58a99c48046ccc29caa6aba40869cf6f083487177740cea2e0050e5dcc9cd71b923c421471a31", "4454f7eb3144f2bb847daf9f936ed09660370b0774a78f12bfe7bf59f637e9c6d4e70dfd7f639491d2c59fd9abf3b3852", "0", "17ed2191aa9bf3d3218e82124bedb540cb18356b8812e5df23d5b1e39f53d841e8e27b80a370584baa784c857b82094a1", "4", "45d6abcf1ef9e09479053afe51ab8cf8dbbf8c641a11e8e26b3afb4499346fa27cadb20da474703e063d1ff1cac942308", "d5c89628cf78c9cbed0fbd7acbee3953110c12f2705160c16e7eeba2ca43a9f508202b73cb47dd119676ffca7592d354"]),
(399, ["4cf431dd8cbf5a4392a82b6e3705bb2e0aa9fd75fd5e7cc6d884d8c296388e012834b2ae49b19604a3307c3b86c5622e4243", "25ab59b8c8c49674317094e4634c1d40e8cf4480e24a51241474f0b9d03d901caf5b4f868838c2f7715692d8750a14995066", "2748d824c3fac3cf61379689d3b99ded21dab8f51b142ba2c40fe808c5fafde478d96327c178d30d31d9e96311bb4d94f1dd", "0", "133d0c77632fd690e4aa0adb8dc16ecb82aa7f5d7f579f31b6213630a58e23804a0d2cab926c658128cc1f0ee1b1588b9091", "4", "43c23c392682b07b2ba229c39cae2c67290f7789c8aafd582aa52ebf84ae8c52ea59fb804d465dd960992ef35b0780f12ddd", "4492eb0c46ff1a18a07ae68ea049f34306c5b375cc169cc1bef34682b5703859ec1057e7814384448e3a0cff2938b6468e32"]),
(400, ["84e0ec0683278b901defa1e31ab97347fbdfd2aa81d39a257cf700789f6e63a0eaff28fbf5d118cdc33dae4bb5eb02ed833b", "67e7d1f41edfc661b4ef96f87f3861b0763524dc76fb41892a3d8652510fe00fae6bbbe6cd3dd0a0d33346a57993ea58577", "7e626ee741398f2a02a0a87392c5ed2cf47c805cba63e60cea5328137a5d659ff0186d3d88fd3bc3b60a79e15e51c447fdc4", "0", "21383b01a0c9e2e4077be878c6ae5cd1fef7f4aaa074e6895f3dc01e27db98e83abfca3efd74463370cf6b92ed7ac0bb60cf", "4", "81d1caa9d4a3381aa4aa6b6ead360270c635f9618230fba6ead4823a51f645ada18aa09f20298f1ca57cd4510ba995e55335", "6d4b24d6d00ad12fadd275a55a9e3674e13e1825fb2639c4cf5b8b13996482029b0ab8a5159825d4fa9247ef60cba90f4b25"]),
(401, ["1070cfb5789cf6f6a8ecf863634d14f5606ca4a71ffa239c8d8418241a5542cab0c1a677e59b99174b3f1634d5f069b95c493", "df1dee3a288f4c596082ca48e744de94b9a1001f2b9028359525f0e337b5d9222f8f4e595dde7bb0a82e3aaa40ba17c59310", "27ef0d1d614023112e4cbbed4d8c70c14d294a52d4121193431b915e6d9e5388dc8b1924fbdb15c40bc328a31e4c83d03183", "0", "41c33ed5e273dbdaa3b3e18d8d3453d581b2929c7fe88e723610609069550b2ac30699df966e645d2cfc58d357c1a6e57125", "4", "892e472319c1a7f0c7f9464023aea081a2391407fa37ebcec2b13111cead5b11e4d1bfdafad62f00758bc6045428d3080054", "9b3d9aeb8d9f0e1578b607350e1b296019946c1754ad1d33f1f3fba1456235578702cf12af1e4a6c2ada780b14ec6e434d82"]),
(402, ["3ac7e57707c7096b9956579c8abad055bb6ca62330413a49c1a15cc46f3984a5bc366c7e771b122daf20d12e25054a095e273", "2ac1e3ec394023173833470c4ab99828dceae4667b9b7601d2363b7b02bfca3af06b80fd1c6a343eacef4c27e1eaf72d91b22", "1006018ace86e654612310904001382cde81c1bcb4a5c447ef6b21496c79ba6acbcaeb815ab0ddef02318506431a52dbcc751", "0", "eb1f95dc1f1c25ae65595e722aeb4156edb2988cc104e92706857311bce61296f0d9b1f9dc6c48b6bc8344b894152825789d", "4", "fac63466adbefdbca2f34009d5f0f677a607c6ff5b42a3af2a795d18b15443206ca71d44b929c52154402bf1026fea297c5c", "19b55c5cb4e8282c85d33ff9d77cbcd3247ed6b254e8fe29f7b56ad40c0ea004434c591a2b2e1fdbc17e850710c4b71584240"]),
(403, ["74c9651c7c0f4314d46a7b55010ea93258e1389dd673233adeb18171ef066b494cd06c281a2003045917fa6dc245116ffbc63", "199b82a1899ee7553ab84d2fd68ece54ec2d236660ef1c34755a20449fead2ed65720a27d2916ffaced965f0ddd4dfd60080f", "5b2de27af2705bbf99b22e252a7fdadd6cb41537758407066957612d4f1b985be75e6200478e93098a3e947ce4703199fb454", "0", "1d3259471f03d0c5351a9ed54043aa4c96384e27759cc8ceb7ac605c7bc19ad253341b0a068800c11645fe9b7091445bfef19", "4", "5961d8bcc7b9679af6a69db20d58189c931653d6c9d0b65c749a17de4ff6d281111a5fa4d6fdd019ccad20fb176f1da43f7b3", "5f50d2e0ac9f92b0f629aa2c6505503b5695d0c65e64312011fbef279d33b5beb6dc46eb41f107cbff80d79a4649d1d7887c9"]),
(415, ["6e34454f8b433b666c8b1bc246037610e2db2a177ef450fefc86e18e1156ba95f7ac7d08c5563296a4c22353139b869709de1e8b", "9a85298f93ed79e8d29423469e95e080640fe77900dcc1c5e00f2c49ca6899a973ab2de874da6cfb7d21496ef10492606e99453", "648bf2b6920463c7df61d98ddc1a1808dc9a2b9feee684e29e85eec974b030fb6071ca2a3e088bc6ecf00ebc248b3d7102f48a38", "0", "1b8d1153e2d0ced99b22c6f09180dd8438b6ca85dfbd143fbf21b8638455aea57deb1f4231558ca5a93088d4c4e6e1a5c27787a3", "4", "66346cc41b8d2a9c63070d31787bcf988371d452c8a6161397f1e299f2fd08bd712f0a191daacfa56cc1cff406e3e5c3c5b85b0c", "3ae7ce548d18c8c1607b95b6a2d1b37fdda2535eb12d3779deffc9312f18e0ecd17ab0502a2fc96603fc389cb7e2636c0c825e4f"]),
(416, ["9794d0ec562ac6c57c59d544d39246b8e1b3ef1290f46de0dad304360998b37812ebf02bd5081f5b89944eff544b06525b093483", "373ff6db60facfe9e1f70b6a5897b11ae7c838290ec083ef36d242ec42cd6da783d903ce2a121a41f163b4ec1e48794794919c7e", "6054da10f52ff6db9a62c9da7afa959df9ebb6e98233e9f1a400c149c6cb45d08f12ec5daaf6051998309a1336028d0ac6779805", "0", "25e5343b158ab1b15f16755134e491ae386cfbc4a43d1b7836b4c10d82662cde04bafc0af54207d6e26513bfd512c19496c24d21", "4", "978627306463cad2d27122f198a2851304e2b90ff95be88d2b3b021c3e4eef0b6bee955c05bc80c1236082524cc320374e6debe4", "42f0dfb3bcf448ad0121760aee8604f57ae1d8b1911210ae85f1c5a60f8ec4de4de94102f16f6e46db2cc4b3a9e15267761b0aae"]),
(417, ["11464908cc8f4d6caaf273293f9388e1d03f8ab61a148c12ab8ef1d258eeb0c4bfc037b4d2723742b2cc7525f32a60bcf50b2fefb", "400c0467a08ab340f046819fcb03e490c9cb9bd12e6adef74114c11c4bf0f1b1893c458bdf7e6d62523731e1453a451678fcf00d", "d4588c25286a2389bee0b0f42e34a98c3a2d0f9072dde23377da5c0942fa1a9a72c735c147a506c8da90207ded6bc6b8d7b60eee", "0", "45192423323d35b2abc9cca4fe4e238740fe2ad86852304aae3bc74963bac312ff00ded349c8dd0acb31d497cca982f3d42cbfbf", "4", "f5676551f192cbb9cccdc157663bb39d6b0c4fe909e381926906d50f4e39635c2555520886cd5e5350db532f3340e792cd826558", "58e8ec3fac872a01c9d852a98066ec7779807761ed09e9ecbd78ac977ef51e16261c3e35d506f9c7190d7db9857db458bf0f3449"]),
(418, ["2c8cb9a3efcee006eadce76e347e8de710f557ab12e1a43495eb4e6898bd9b3edf722c96e0af9305f90a0189674b04a0fcdd35d2b", "10f2791f975925d5bb47d09e47f67048e579f53e8ad13777c0ced160af794627b2d0737ad211fdc15a54553ff42d03f6cdf83c7ea", "1b9a40845875ba312f9516cfec881d9e2b7b626c88106cbcd51c7d07e94455172ca1b91c0e9d95449eb5ac49731e00aa2ee4f9541", "0", "b232e68fbf3b801bab739db8d1fa379c43d55eac4b8690d257ad39a262f66cfb7dc8b25b82be4c17e42806259d2c1283f374d74b", "4", "223750eaa5761a38d9332431db05349511bd80476dce71ea4f8e06b0e4445aafe260d5bda03023b1931b4d65ff1efa2f099185af7", "104b6354b25559c4177b37af683430912a2b18d6759204c58cc0b8d995f9ff086f7b3352aad0d03a29a0798d24911206a72cecc85"]),
(419, ["5e52fe536d2439a9e13a34def1cb899b5d4219c19430e0e89e8cdfa912eb4deb149d3498d3ab2cfae4d5d892c748b30bedf8a7463", "5e02c6a4fda892384528b4aa0936c14f5d2b6df8ae1a83138a8321e263c9bc8467fc5a81f96f2f7b4b40c3ca4da3668407ad35104", "5037ae6f7ba7719c118034e894c84c0016abc8e6165dd51409bdc6af219166aca0da16da3bfd7f999514c879a54c87e64b7235f", "0", "1794bf94db490e6a784e8d37bc72e266d7508670650c383a27a337ea44bad37ac5274d2634eacb3eb9357624b1d22cc2fb7e29d19", "4", "97eb10e07cba40e83a4ae0bb4c1a1febc9c5df05321bfd59fc4d5604146b4cb97219741677a570c99c14a57908e2311e4f954471", "b3e115d471b5b55a7a07015a3786b526945cd480e4f91bd7ad0af30ffb4b968abb198c4d373d1ed1c8c79903be41816c17401b"]),
(431, ["71dc079184b002cd817e6a1fb82099ba7a1e25ca2740049f7cb1655680304e3e23db6bc7744a419dcfd9463fda7165653850a6b1bc23", "605f09b3d1a7ed1dd4b71da8bfa5b7c62b2a75f685509823184fa52a56c3d4afdbeb4c4768d591c8a2a04ed5d86d16b337bf1801cfbc", "117cfdddb30815afacc74c76f87ae1f44ef3afd3a1ef6c7c6461c02c296c798e47f01f800b74afd52d38f76a02044eb200918eafec67", "0", "1c7701e4612c00b3605f9a87ee08266e9e87897289d00127df2c5955a00c138f88f6daf1dd12906773f6518ff69c59594e1429ac6f09", "4", "10a826710ccc7b3ae446d6bdff24dd5f1ab49b6eaa85e146fd1462078fbc222596a77676ef870f4a738aac66555c2221c3125e868c84", "1c502d408197589b9e6d1cc0043e57b60b3047d0a2e982e40bda5c4701845f738a2f1207fb78128556ffc46b1501bd0cb4530415f3e2"]),
(432, ["a21620439a774e6cdbc508cb65f28934d6b25a0a7baabe0db786a960697fc575c58746d517b0f97aa8a20bd2966ef5f87090a0e3eb63", "7aef5e47769af45e333e5bdc3799a94e67da634e5bfb2b489ee513d6fcee1c72029e72301d270cc569249c0e5bebcd51af1554eae9b7", "2726c1fc23dc5a0ea886acef2e58dfe66ed7f6bc1faf92c518a195896c91a903c2e8d4a4fa89ecb53f7d6fc43a8328a6c17b4bf901ac", "0", "28858810e69dd39b36f14232d97ca24d35ac96829eeaaf836de1aa581a5ff15d7161d1b545ec3e5eaa2882f4a59bbd7e1c242838fad9", "4", "81b98f4d34362892f73bab0499805a3a1575c02a33a5bbeb817f1bf90c09a8c12b23e1da1bc44a63b1734a938c430491b34d68c9f657", "a08c1246698e33c8ce0499fdc1a95eb6a2f0c7d174f96a11b75079a715caf1011dbe8e95cdae475f02214cfaf637694dfd9f65316bb8"]),
(433, ["1a0e67eebfbef104c362f1e99180b322ed94353cb64aec4d30ebbfa1251d32d4dd99adbd7dfa94d6d88402b345a44c8d105e61b1f367b", "86908080619020a3b9ff2abbc493df9a9a270fe23dd240965f767ec007191bf6e2a8f7ed39817c78c23d427faddcd153475d5f4a9134", "11a55fe6b9a5eefa87c2ff3dd537752943f1c43e926dc843caf457b524aba1156f6f1e3eaa627d0f4c602e8b4ac67f77dbe88bbd4a547", "0", "68399fbafefbc4130d8bc7a64602cc8bb650d4f2d92bb134c3aefe849474cb537666b6f5f7ea535b62100acd16913234417986c7cd9f", "4", "918c26870c314a6b20bb45f591c66450490d90696b1fe37897ff7e169dec975153f199c869351efdbcb9f3e1cf0fb28f399c01e1a6be", "17c7a831eac773b95d507af70c91c34c16c863154f129de76a6b7ba73cfcc12d0bca323cf25a7c73ecc2c27081d47d4853ae5eadc83a8"]),
(434, ["2e1928047eaeb28cb47c4ca0bb22c470b927794706e74068d3741154d9cc30cba3d69254c7fc762bede96d97bcbee7de60c3672dac4b3", "1899a0f8f0c244772c15080711cae00c14d987dd722107b46659f45c685036542e72830f1f5c9950dfa8ab2e58a2c6016702fcacc9685", "157f870b8dec6e1588674499a957e464a44df16994c638b46d1a1cf8717bfa7775640f45a89fdcdb0e40c269641c21dcf9c06a80e2e2e", "0", "b864a011fabaca32d1f13282ec8b11c2e49de51c1b9d01a34dd045536730c32e8f5a49531ff1d8afb7a5b65ef2fb9f79830d9cb6b12d", "4", "17dbc82799372391342464eeb772ee2e77ffa60223a42b0cb1eb231066c6491e2a0d670f5a83bee5d130de94ee3944382893f2ef55d64", "71f427903b1e3ee0b475662a6db1e6f3ef5c3262029c2b9e6a58c1ae8654991a20d29b9f3fca6d30f2a493a6a31078382449090d4159"]),
(435, ["73083e14641c39dac5b0d266de09bc0c5e84b2a0e2cc353baf7e6f732d85964928e668324d505557e1d69a88ca2be16e73317e95b1afb", "37d3ecb9a480fda9d56ebda7fdb02ad2d85bc7cf314d73ffa789ae35dd9c9234bfd629d6061fa667a324d98579a0af2ad8d1647c6b950", "3b34515abf9b3c30f04214bee05991398628ead1b17ec13c07f4c13d4fe9041469103e5c4730aef03eb1c103508b32439a601a19461ab", "0", "1cc20f8519070e76b16c3499b7826f0317a12ca838b30d4eebdf9bdccb6165924a399a0c93541555f875a6a2328af85b9ccc5fa56c6bf", "4", "7152f92783c63586701a29428edd605c2f70f3aa8c18c963a992bebac33d5c28d928659dafb43fe9b0572733f1f041336af51c3caeece", "c298eb7cd5985b81174654e54e6c23f2ade83e07fdf7e139680961e4aa85c34b1875223ad99630cfb6d4ba723443974541a8208f09e3"]),
(447, ["4fc9534357f74e5af4e135aa3e7409687c93faab82e42d1fcf7103315e4a5789ddf68460a18dc1aa5bf9090657da08f11aaa3acaeb0019f3", "1800f61129da05402bed5100f6f90fdcd17c5edf392d0243ca93ce2b90ee26b4d533ba5649e2e41bd610eca06e38b1063dd13203706acb9a", "37c85d322e1d491ac8f3e4a9477af98bab179bcc49b72adc04dd3505cd5c30d508c2ca0a57aadd8e85e81c65e9a157eadcd908c77a954e59", "0", "13f254d0d5fdd396bd384d6a8f9d025a1f24feaae0b90b47f3dc40cc579295e2777da1182863706a96fe424195f6823c46aa8eb2bac0067d", "4", "462628cedf006866a0a4e868ebe69483f5118d8752b3fdb90b65acd16986b5921c82a58893bbf59a6c42b6c68edb358bce471798119e1233", "4939a9760e20bb0fa235155493772a2973a04dca8bd6c7ee9fe98c1228612ec9b0e502cf385ff1c83d73cfe810fa7a37d6055e1514cfa9d0"]),
(448, ["b79f9e9f8c2c4fbb78cded54dbbef08be5111aa2d67b084d6f8b1009844ccaf9ec717b18c595b4fbc31222b5f68bcb0957c81c87261e9a63", "59bc3b4bf2c3a79eeafe7033d9e9dea2d1d76eed6bb0e267975df3c6409339cc46d4548637976d816d3cffd2540b4984b851467e67e11879", "5de363539968a81c8dcf7d2101d511e91339abb56aca25e5d82d1c4343b9912da59d26928dfe477a55d522e3a28081849f76d608be3d81ea", "0", "2de7e7a7e30b13eede337b5536efbc22f94446a8b59ec2135be2c402611332be7b1c5ec631656d3ef0c488ad7da2f2c255f20721c987a699", "4", "37edf3ca880b63ca99ad6d4fd10a310e7adb16cbd86d4e87882db70826523c13be2b2937df5aa1f31966d838ecb57ec4dc224328d7c9c010", "44bd39968c2e89be65872644e6f2615c763053395509424fa61ad7b519df04218c777c80b1c6cfc31ac50a9c87c76eca1a3d42d9b29323e7"]),
(449, ["1b156df8077b6b3ebfef48ce050bc85dfb4157639c89470ad772cb1abc45ef378470f85556c9d975e5d1c23579f62b63446d0a7ee41dfdd7b", "349d263db7c05f81c8ca8f94cb40f80e5d81c118ee747103ff21520cfafc16cadfa71d99c47d298a9e67e03941d7c253ec774a52e2e36410", "17cb9b942bff6546a3629fd4b857b8dd15693b520da1fffa9780b5f9ec962dcad676867bba8206dd3beb4431e5d8af3e05a595d9b5efc796b", "0", "6c55b7e01dedacfaffbd2338142f2177ed055d8e72251c2b5dcb2c6af117bcde11c3e1555b2765d7974708d5e7d8ad8d11b429fb9077f75f", "4", "111ebe0ac4c90a4dcae0a96178949ed435115ef77d9979fece473db5ef838004cae3bd2796a88682581e53d634434c9906e8394b266c805a9", "17ae3468ea2d031b111f416c5a2e3e97f31230499abf8e91860b9309939620ca3e03b0df78f832a417f9ff65ad3e2a1c4a2687523c0a8bba5"]),
(450, ["2a68004cc526db4ecd15d7f4617b46ed276791f518edc3507aa11545b0d736a7db9c4d0187bda624334367de455dc7e6efdbdec6c7c89595b", "12bdaac0617cd8d271eaa2177fba3c06695bec2c99d85ad9a4de1f4fd72fe6725905cc61745f17b45a3b4485815b1e91271c174caf7970ccc", "17aa558c63aa027c5b2b35dce1c10ae6be0ba5c87f156876d5c2f5f5d9a75035829680a0135e8e6fd9082358c402a955c8bfc77a184f24c8f", "0", "a9a00133149b6d3b34575fd185ed1bb49d9e47d463b70d41ea845516c35cda9f6e7134061ef69890cd0d9f7915771f9bbf6f7b1b1f225657", "4", "23708068a1aaec5f1ce60b8b12c913a05bbea71ec0789bfb70ad0a3c35776f8ebff1f1d50cf511f37bfd0c3d751ade929b1ecd6dd655dfd7c", "194b3fd23e237421ad4a4f03842c70ff5b219ac343993fe67e879e382253cc73fc65da3b385f71213b0ab8fd24288a7a6b5c4eeff830dab98"]),
(451, ["55ca32002ee9e5391b45a9f46bb7172e89358ca95f18123923f40da6b306bd09949520c0b5ba478f366e1645d33da5fcaee27b1db81c27253", "2fecd58ab28c9195491f27b47b7ae8704c8ad75e22730a0bb4f8a411b06fa148fffb3344c4c1d72fdffc028f3386b020ff0cfd39469280188", "25dd5c757c5d53a3d226823ff03c2ebe3caab54b3ca5082d6efb699502971bc09499ed7bf0f8705f567213b69fb6f5dbafd57de47189a70cb", "0", "15728c800bba794e46d16a7d1aedc5cba24d632a57c6048e48fd0369acc1af42652548302d6e91e3cd9b859174cf697f2bb89ec76e0709c95", "4", "1cbfc824087d1f5ef3ab204f1d70eebcc33ca04265e1d8183e7da479ad3479c814505fc29d4251e42485b465d59a14e6e120ffc89a8b01639", "2829ad75665e5a3ab2e1b6e2aa866488d3be3090d28f65128fea93df47f0f785b7572c5d04004053550b14304afb32da3521655ac1ddc4cf6"]),
(463, ["4e5b97a58d4501a31380be947ade671ea48b301f9f1f2b9cca6c168d77949cd9dedf2c6e2780166bdb0242ed13cd0baa3c2a9d32e4552fe9b94b", "34515328622f9449927291c755287e127bc477ed8fa986d84ec33cc9db5111ec3becc52881ba3d4a8acf113d6eead25ab85e9a67937ff29b1bbd", "1a0a447d2b156d59810e2ccd25b5e90c28c6b8320f75a4c47ba8d9c39c438aeda2f26745a5c5d921503331afa4e2394f83cc02cb50d53d4e9d8e", "0", "1396e5e963514068c4e02fa51eb799c7a922cc07e7c7cae7329b05a35de5273677b7cb1b89e0059af6c090bb44f342ea8f0aa74cb9154bfa6e53", "4", "48c21e5afa0efbb495aa6dd4e2c360211341155c87c663b1859c47e492a0b46f031a0fea545583a254f6d51ef72bc7612ff6b240e15530517c26", "36e288710d51ddbd1214997e9286c87dd9155e53c3c865df875d49eedf51d0cdaa1cff1c4570baa192eb3994e93aa31cd453fc6b3942dcc25959"]),
(464, ["aca3f070392e5eeb8ff555c060beeeb47b715b6a2701bc272c8a1a75aa759ac4958de03bf062e55f1a5a0cb51043471c9cd23bcb28bc65e481cb", "3a01afd1e86ab2fbd8284fe1754cd74541335c60551c75ad7d5a83c96c512acc91acbeb8823423949d07fa0c223c237954eba8ca9210b5501f3d", "72a2409e50c3abefb7cd05deeb72176f3a3dff09d1e54679af2f96ac3e246ff803e121836e2ec1ca7d5212a8ee0723a347e6930096abb094628e", "0", "2b28fc1c0e4b97bae3fd5570182fbbad1edc56da89c06f09cb22869d6a9d66b12563780efc18b957c696832d4410d1c727348ef2ca2f19792073", "4", "9317be6217ba6c4d26d62abe5a018367b3c61c82617d7b07ffb19671467b7d0678bf74a4cb88cc415c0990c3c4b288894dd1427c94302e780910", "1580f7bb88079fc969ee106f11d9e49c34c92baeca54aeba446b10929128487b247d280f91c15b6c85d333d69ebd272dd8b11b26181638c7b265"]),
(465, ["1e94ec76bc4f1fa8abfb8ddcceccc7750df424698bf6007c22b3c3e9844e94e8507b3ac2945c8638cedce3854641475c6d04a9eb7e6240c15275b", "17ddabc2c6539db21826610d3fe8d35ffba4a6798182d455aa5c7e47f208b82bff32603088755f43db6af4d42f82c0d96638ae615cb145c0aa162", "6b740b3f5fb81f693d52ccf8ee3f415124f7df00a732c26785745a19245dcbc5148da920be726f4f371eeb116be868306cbfb8a21b0fb00a85f9", "0", "7a53b1daf13c7ea2afee37733b331dd437d091a62fd801f08acf0fa6113a53a141eceb0a517218e33b738e1519051d71b412a7adf989030549d7", "4", "8db55d3af510ca34ec1ccef80a4e6098a21e31901cfc3959f3bf70b1be36d4a394fa7b9725d60951c745f149d848675c7f6d9ba97000e3fcd54a", "1136e691a8564d0249fb5ea2491f096b2d0dc2832fcc63d68f10afb0119dd1ac05b036994edfd0071a0ea21436cd77c5e03ffafa647ab7ced1299"]),
(466, ["2c32b63d3dc51f2377a02e6d49a0be807fa1b935d39f0e124ebdbe2e821bc7e93456523238cd05c193e236f2d711f9a013a3fbedb424c587ee343", "11d06f2fb8316baf9916445ceccbed56b3b3e93906364781a827db68dd8a264a0acf72f5d0a116db0bd99c5fc5811b989e5ebd4c9f06bd8c50984", "1a62470d8593b373de89ea105cd4d129cbedcffccd68c690a695e2c5a491a19f2986df3c682beee688089a931190de0775453ea1151e07fb9d9bf", "0", "b0cad8f4f7147c8dde80b9b52682fa01fe86e4d74e7c38493af6f8ba086f1fa4d15948c8e33417064f88dbcb5c47e6804e8fefb6d093161fb8d1", "4", "bb775b9322c574294e515c651180a59253998141d88f7f151bd95cdbd1da2244558221f20917d817b4aaecdc41f26cd7338e6fe602e37070993e", "138d88400f57721ded66ef52a617d72ebc6b8e3142526d21e9da15c19fab953f01f6f567ff184abacb3135e8a0eb89e8dead706349d3b92a8b934"]),
(467, ["61657df159e3f606e5521b433b463e1d45e97163a2dcaade627516126b9bbba6c9d04c080e4cf3c239afe67721af7ee7b95344fd94f096d5d12d3", "9cad29582ab52fb4081624e53ee7a57f9eec52e6cb2a9c9624f5cf00d6fd9e36cca45de07afd50ed633917143c46fffdc2a43c370d5cb57507be", "579aab5bd738a30ba4d0b8f4e757c3c54bfaac35362a01150025b9225e2be1c35d06062a069d1eb3637c5505ddeb0ee7dd29013a241acb7e80b15", "0", "18595f7c5678fd81b95486d0ced18f87517a5c58e8b72ab7989d45849ae6eee9b274130203933cf08e6bf99dc86bdfb9ee54d13f653c25b5744b5", "4", "213fde3bb00a0bdd5c519409bee0040f2817fa4ea8f20172589c000fc3d0d8abe20a5dac82a1009c3fbc68c53754a4722e01f6f4be7cc82b8225e", "1257eab9609c4c00596f7a49a0cdccb238d88a9f3890154b9066339611fef16d6169884135705a9df626edf8346b0f8a4371ee4731696bad4a0bf"]),
(479, ["5b9f443c43745e7d6a04131c43482c59e052352defc5d4555d234aff368e1446832bb899b380193d6ad64e2a745ed91ee3521de1781072549992ff6b", "57a34145bc7bb1d7e0f650a57e5185b49ba9d51c6d0dcc7a4a98b2dd58f0fb3460e3af464edba91df4c8dfa212a3afee1a75c150808f30a4e0b19f82", "3fc02f686f8aca5890dc276c4f6a6a544a8601182b807db128a9821dd9d19122248095364a4701f760d6e8861bb2930c8dc5c90f78141afb8e15fe9", "0", "16e7d10f10dd179f5a8104c710d20b1678148d4b7bf175155748d2bfcda38511a0caee266ce0064f5ab5938a9d17b647b8d487785e041c952664bfdb", "4", "350608af6cf4de46e0b03a0a7a41d43ff478ec4971423d187d1c0dbd18271465efb9f96ad8f8edbf3d2dd642188358dbaeace9263d1c93991ae44278", "22bdf26ec3daaf692751f6dfd2d5e1082bce7c2fdd7913db89ff61d04f9b544cf66af854cece1eaa4aca3509109bd3601c6aed6d18167e1d8b6015a7"]),
(480, ["e2bd36e4674ad065ce1df70d48674edf654087f0110a7578598b33c5fa30b412f6cd910cbe3bf7b7fb65b83bc5837309a402ff06fa67dae69f72f723", "bcc52acb05bab8a3d802d1944e07ac128b64f3d17a53be4eea49ed00b7ba12fa9f6564fe0f6b4184a47c70d16b114926e92cca7b8183d437f7477d05", "25f80c19619017c1f61b2578fa5fa2ccd9db941e96b6b7296f4146c54276a11857682c0eaed0b63356e9476a5a7229e2bad6348b78e406aea82b7a1e", "0", "38af4db919d2b41973877dc35219d3b7d95021fc04429d5e1662ccf17e8c2d04bdb364432f8efdedfed96e0ef160dcc26900bfc1be99f6b9a7dcbdc9", "4", "6bab47e43054c02b3c4d4b1aa289771da94b7ceaa10562ada31b32dfa75ddc5110092545119867348e222a1af2b2fd45d6d573343671ebb588ab907a", "80cbcdc892ec7a298da9d02511a1e159ed04da99c8467c13d41f25dfe2ef92a3c168e2ef85a094cd3840539536f88db2e9cac9d301609f4057c98d64"]),
(481, ["15fd44d79b42cbb6d213ac0b982f444a9953f65841d7c890d388c488afe3635c4e29f2aaa00a704f146d32d9fdbaa22d6cae44594b5e66e674d3cda03", "a2c54888267df363774db355c6d8d7611883d22eba5837843b2cfaa85c7a186ec683560ce4e4d07cae35538cbe9ae074beb391bca560dd4bafd40031", "bd0f04f18daec809a9ed0d63bc1b6d487cbb935563245188fd5f4de2a1bc1d561c1bd49d1bc23474989dda131d0f42620c30b3d81085911b9d68d9d2", "0", "57f5135e6d0b2edb484eb02e60bd112a654fd961075f22434e231222bf8d8d7138a7caaa8029c13c51b4cb67f6ea88b5b2b911652d799b99d34f3681", "4", "12b9c64ccafca93b914bc1c5def574ea3689bac0bbb723d39f8aa11dd3e8eb044ca7ad18c8a4fdfaad44381acc8e313c2e5db38431b4289d31bebfa4a", "c2436c584960f11433bdded443621d7bad1b7599ff767016702f3d5b75f945cb7bd28a711751a8e6662be6f72342bac51c36f01276b62bdc4c626723"]),
(482, ["3091eecd709381c71a84aae29d3d695c631c36714fd38ca6cfc15e729a7fb7742fb75a22a551aff3d318117780434bf7e7e9d424d263d60537c2d54db", "86272effd6c26e17a106ba53931a7830733c601aa969a94a799302c684e49343de71601fb8e28b5224a006c411a290d732f19334d405341bd0007a26", "282f7bdd73275ae5a0743f3d640bc1d95be8706fa53cf21228282e4632316e3ff1d04420a9c3873eb0ce110b3f2922ea74babaf1852382c37ac2cdab5", "0", "c247bb35c24e071c6a12ab8a74f5a5718c70d9c53f4e329b3f0579ca69feddd0bedd688a9546bfcf4c6045de010d2fdf9fa75093498f5814df0b5537", "4", "59dab0f083441b9627808e51b9d8bd1013f98f5696444779d45d6ae9b33bd99777e8f5a7879a448531def782c86a368d19a61b34dae2c75a391e0f4a", "29e48eaa18b9ec6b4a45b8553f54ef1779954d5f70b8444326e8792d99f1266d3cc55eddc4bd6f827561e31cb340bf4ab99c5010e384743c52e54b59f"]),
(483, ["6439c02ab87312de6d5c5ef8e1bb5dee7b5a63d186b941b343bcb3d285a2af2c1a0a17ad4fb2aeb8592b6b57fcabe508e7a45cfdfaee9a24bfcc598fb", "43aa32bf5ca513cb51cacb3733844bc81a3b98d6abb62fcaaebca5981efcb586e21b18342ebb54e87939aabd2a41b1421f1b8851ed78e37142dae48f9", "208f8d6b5bcdff131b9193c1ae371226611ecafadb0311e895000e3a66a5f9a537eeff7920f759cfdff1c09ad26a33c6c888d4ac0d75b6b37cf175002", "0", "190e700aae1cc4b79b5717be386ed77b9ed698f461ae506cd0ef2cf4a168abcb068285eb53ecabae164adad5ff2af94239e9173f7ebba6892ff31663f", "4", "2672f29a80044518717fbd24cf507cbd64351862a71d9871935b59d0daf9577efc0e16316cdd27cea8382c22a22a30eae67c0233a8dae782532e620b0", "4f0d317fa17bdabcb7701df923ff099c4053a9a5a08919abfa39b288caf10121c0266d52646e70407a95c7cf51ac066dce1b4c8e1767cdc0bfea82cee"]),
(495, ["6332b54f689cc3821900c17ec3be58b380135a29cc7494aa1ac5d227a197e8af02a92343362cde77367764abe0c07aced67941950334c1a413d9e79f407b", "31b9121a9830589a4c0f83778663893aa4ed57fdd7d9396de3f3922018d5dd2c9fa62bc36a5d6f352def3dff3cbe1622b05993e69edb2fbe2d407c66a7f1", "3179a334d06c6ae7ccf13e073d5acf78db26022bf49b5b3c36d2400788c20b826302f77fcbcf6f42088826aca40264ac261fadae645991e5e6996b38988a", "0", "18ccad53da2730e08640305fb0ef962ce004d68a731d252a86b17489e865fa2bc0aa48d0cd8b379dcd9dd92af8301eb3b59e506540cd306904f679e7d01f", "4", "396538bdff1be006e0aeaff8a8f1da0aec4ce8d7c160d31a99269b9c2101154b5207818217e5cef3ecfd25d28cef15111334caecaa636a0d29ac7c116f8b", "5ea4a3a2b02a0431420b233ff31a012218d634b59f80f3dae4f43a41b56259d24a3ba0cd81530315b5fcd3c9184b6a45e487f9821854992b37fd2fd29f6a"]),
(496, ["c97245d8f1b980ca812480a782139e659838812dc807f20af650c6e92bc40728c162192473e766341c2073f4f5561762484b444b462e05b6aaa23e845183", "5a02099b1d55ca0fa0198680a3ab8b4007d4192202e32ff975fde7f350cb4c86c53c0b6b024aab7f53112a256ab82e7ce288bfafe4ca56c29cdabd615fbb", "6f703c3dd463b6bae10afa26de6813259064680bc524c2118052def5daf8baa1fc260db9719cbab4c90f49cf8a9de8e565c2849b6163aef40dc78122f1c8", "0", "325c91763c6e6032a0492029e084e799660e204b7201fc82bd9431ba4af101ca305886491cf9d98d07081cfd3d5585d89212d112d18b816daaa88fa11461", "4", "19cffe9b93344b1311b4c93069033c78ad3ef4cc2866db29234a1e473eab251b18db5bdb6e44e0f87a5f94f74bccc67761b34071e967cd9f4f9c916c5598", "10539d43cb943aeb608a240573b2271a3f891f5cd5990564b55d8b62af6c00e2d1eb99f806a96f7f352a33b1b810195da5d3d788f8d4e9a2e7e407091149"]),
(497, ["1e4c25084878a9a7ee9a07aca4ca205987e93eebef915223938ef3a192f0a2f202d836d4e25b72faedff6a782136154276dcf6986de79ae5111419d2fbf03", "91bd3f946b9bd163d44be0b84d6f3ed2e7687bfc65d12fac96230ff2e37c3bd7f9d14c8465aa00780706aa80180b916cf4f8637e7206cb0335e17e4fbc2c", "1530510f01beec91b15549a11ff32c6c5972b72c29343f28ca2cc2a264b8df34833b220c9c00d2f36d8effd01fb55c2ba78d706086c72e34ddb601ee002d7", "0", "7930942121e2a69fba681eb2932881661fa4fbafbe45488e4e3bce864bc28bc80b60db53896dcbebb7fda9e084d85509db73da61b79e6b944450674befc1", "4", "4a3dbc0ba288a8b0d4f539f77bb9e0349371ab57e4d088925e10b3ff28d1c87d42ed63f3d46829df51e18abdfb6929e13c4e94560e980eb869735d6df45", "11731e7e5b6d85913572e07358f467d2d0e9907a90db68c836a19e2e76ee37fc6e2c82f0376cfdb0d91abb661d660bcb3332fb7da914c2f1a175f67c21cdb"]),
(498, ["3a8fa60059ec132695f869b475453a8c1ae89ab7b4acb99c42981318f6d74150f2ffdd3f4f488c7b5d493a88eaafa4e9761754f05ac3224a1628fa21f7e33", "39a44cd160413c9b4c8f275063c4e8fb207c9c4d6a3343666685bf87410c75bbad882656cc0988352498da906cdcabbeb225a7748bd23dd581739ddbbda93", "eb592ef9aad68b4969426411805190fa6bfe6a4a797635dc125391b5cacb954577b6e8833f044638b05ff87dd2f92ac3f1ad7bcef0e47494b55c463a3a0", "0", "ea3e980167b04c9a57e1a6d1d514ea306ba26aded2b2e6710a604c63db5d0543cbff74fd3d2231ed7524ea23aabe93a5d85d53c16b0c892858a3e887df8d", "4", "1301ce29065749efada43c5e6984fcfee9b84d6cd41e6f3ec72dde82fc773ff78b95bf2e2faa981d7193c7a7f3cacf953cedced507e27f16ebfb3fca2f0d", "a7af916d90c7c1a460e0d70e6926e92043be70ffb60cea96fd3b0f2b9022abab610ae2ad9221d5d3168216ffc377886935009deebf18410113ef97d3c743"]),
(499, ["57572900ba8ded2206c507d18db42ff09a75fb150d87fc94ef637e855248bbbaedd68f023de81dccfa320fc3956f83da234500829a7bba2c00fd801bcff9b", "a0dbb5b275f50ffb4cb62ce8ba0c6ec3da711468c9c2b08e5a7fc1e649f00d2ec29adf77bc6195a8e52b5e9f97057d1f25f3d3d123b0261ed27ec01eba9a", "4d496da5932e9c2251f9a503021369045ccee9ce80ebd18c09bb8266eda9bae801ace10ac22204726bdf59d99bff2c0830e5c3458840b7ca13d59419e4501", "0", "15d5ca402ea37b4881b141f4636d0bfc269d7ec54361ff253bd8dfa154922eeebb75a3c08f7a07733e8c83f0e55be0f688d14020a69eee8b003f6006f3fe7", "4", "4a36a1586916c005c5ed32d1b45b3d26becf5b7360904f68228007fd8d0c3e8166a6bdbb87db58e69784dc6a290c6862dc0169213350c0ab3f80f2c349f75", "50c0e286c1c0b40f81d503ca9429be59e7dbfd82a9f30ff383d674fd6228009fa536a94434d5156cee5c71e616e2f1d262ce55f11760ad22a7e332f26988b"]),
(511, ["572b946e6e060432aaca53960857fc588f7097fb45732a1b8aa3197f4e1aee5b8089f1ba7ec9613bcb19991dcf1c1d1e2e90575c3489155dcb061d9feb6d6113", "4830e6adc8fa5eff1205d16ecebf67c20ada8444bf3dd68553cc5b4dbe7d06a34d6c3ff290cfe9c9c1d800775a0b4bd4238a4da7e7545f96fb256b98b73b6a53", "efaadc0a50ba53398c4822739989496849613b68635539636d6be318f9de7b8331db1c7edf97772094198a67510d14a0b0609b44d34b5c6cfe0b2073431f6c0", "0", "15cae51b9b81810caab294e58215ff1623dc25fed15cca86e2a8c65fd386bb96e0227c6e9fb2584ef2c6664773c707478ba415d70d22455772c18767fadb5845", "4", "296b4faf0a388fd194cb21dc06d810e3edf73863e99cfa47a412381a5a63666e4adee5f3d1bcd23ef4297a63bd4ec7ef0cfc719b2232d99a08dde1427b297e27", "2f5b2c5e239fd6b5c50085fceeae865477b8018d32c9979763328ccacd7993b136e6f63f09a654d42c1cde805c3f6b913daf124441e961a7b6fbcd9545108843"]),
(512, ["869f6f7a47c0d70bb33c229408d5005b07bb5715ddda319d32a10b17a41125d0765fc24d155bf154df0916859e7854b5192f1e5df434bcfff62378c84cafa893", "691e7f5712a5873f8d2ec87236051192969e5462cf0b380a2bfec568bdb18e1b592f9590a3f408cf0ff28898f7fc26e0280016f4899e32a26735f902a9481693", "1d80f023351b4fcc260d5a21d2cfeec8711d02b30ecef99306a245aee65f97b51d302cbc7167e885cf168deca67c2dd4f12f07696a968a5d8eed7fc5a3679200", "0", "21a7dbde91f035c2eccf08a502354016c1eed5c577768c674ca842c5e90449741d97f0934556fc5537c245a1679e152d464bc7977d0d2f3ffd88de32132bea25", "4", "34e542b4a112f2953f98c5c873802598c1bcb842c0828a2c76282863c87e0d3c342a26fb9c1e67e42373bd65b2f79ab57f7673cd231c2723a0c09426e7544e0c", "5cf05af49f82fec78495f419ed1facb47f4b195afa8acc3f9b00dd6da8f46fd2dc0638c3ea926ac0ed67a47148171c8b640b10c8158e54df8ff7526d53b567e5"]),
(513, ["194419c4ed9b02946bbbdcbe8111c13fbcb75c1432b4c5a530a9839b2a89ad3409fefc2a2aef9d31cca6c0cca584bd63824018004158abe1a3de4e6c539b5d1b3", "130a897f2bbf4a0b7d41b998f9c49711f2c3c362e94b8754669923960af9029ff77cb52aba3f00f200866524cb2d9622e8dd03a8b7c48491b98c6354000cff199", "6399045c1dbb888ee7a2325874d2a2dc9f398b149693e50ca1060051f90aa94128246ff70b09c3fcc205ba7da572740996314578994274fea51eb18538e5e01a", "0", "65106713b66c0a51aeef72fa044704fef2dd7050cad31694c2a60e6caa26b4d027fbf0a8abbe74c7329b03329612f58e090060010562af868f7939b14e6d746d", "4", "5b3242bbab61c83488f7e99d7ab7e06053e4fb4de5c158488c2ad2ca1989d7894fe60e60228a4c795133f9291016fb0f12ed0f96fa450e7cc19325c23b35627c", "4420e8d3a4cd36e036468dd63ed93241b75d0938c32b298bcaf9a233ede1b124c2813be315e9d1bf8c48cfbdf24bff7463aab96d19a077a616d6910dcaa8f154"]),
(514, ["373a7e550ac2ac01db25ec92d20808f036318900f1552fbfa3f6e5beeb5736a5a09e1aa39de5190d8aa3af91c2e9e5b1653d18c17352588026222bcb3655438ab", "31dfd021ab472ab20ccc2ace80e9e75919583e4cd8b3ca0a18384ebf79caa1abd7a4f542567d8dbff0ab50e9f049942084a85ab9577400f061e4b9c06ad06c3b4", "55aae335f7b814fce59c1c4511e21971cd94ab418a165b58bbe96ff718c94f9c8f9256147678b4d99f85ea7d2a05190e094be081bde578fc43d720acb84d74f7", "0", "dce9f9542b0ab0076c97b24b482023c0d8c62403c554befe8fdb96fbad5cda9682786a8e779464362a8ebe470ba796c594f46305cd4962009888af2cd9550e2b", "4", "29eb0faedcdf81c815dcbd6cb85f9f7317b7aae4555ec6c3b34d7f8205b4932141c058481f26328f2259ce3af8941a44b1fce12105a5c409c923234b761f4e8d9", "275c04b8fd1035b7f7bd72ce42f70acac64a8b887fe193e12f61ba6d3ce9765639df8ed5ba124e548300808fb55bf5858088bf9c50941ce56d1770d56491b76a5"]),
(515, ["55da08446760fab0890c184cc7c759cfc80b19988d3cf67de29e06935626dfeecb582838ffb5a76b50705446abcce38d1f2e174b59443aa3a82371bd44e1f36a3", "308effe757cc0c1f1f34b309492bffd7bf5aa00ef0ee3374e85275449ad5ff25d52023e08f0c8d397dbcb93ea011a5c9763d608047352e9148f2781097c88dbb2", "254b085d0f94ee9169d765437e9b59f808b079899c4ec308fa4b914ebb50e0c8f638045870a91a31d2b39b080bbb3dc3a8f0b6cb120f0c125f30f9acad1965af1", "0", "1576821119d83eac2243061331f1d673f202c666234f3d9f78a781a4d589b7fbb2d60a0e3fed69dad41c1511aaf338e347cb85d2d6510ea8ea08dc6f51387cda9", "4", "555a61f320f03d31d57671a658a250fdfd297630162db3bb02df7838c5807f160f0466499a1153b90d9187c7959a87923de763f0a126149ba1aef91ab967846b9", "2b221f7dd5eab134698cba74d5bbe693d39489ee99095cdc612c1ec179b1b5cf728a9f1a3eb409c95d5355077f23df087bafe1e47c56615caf6fb372693811c6d"]),
(527, ["75eaa05387b57646cfecbb936ed736c799222714481898d4bf47b760c1b3abf98cea232d4981abdff4394a594c4b2b075da1d52207b65bd47ce558f4410149094a33", "5d0a387a12507afd5a127b454839322b982b8f890e4a2fdc73b48f53668a03fab82f348345493310d420c375c6333afa5f69b266326957adf9351cde3b65efc04a5e", "18e067d97564fb4975da404e269e049c00f6978b39ce68f84b93280d5b29a7fed4baeeaa043878cf201886e38617f00cfe3822bbd54d042683b03c16059b5948ffd5", "0", "1d7aa814e1ed5d91b3fb2ee4dbb5cdb1e64889c5120626352fd1edd8306ceafe633a88cb52606af7fd0e52965312cac1d768754881ed96f51f39563d10405242528d", "4", "44191e2adcd6972dd4f236ecc00f67923e39182d23763e628d41b10e87ff14a42f3a3c1b041214a92c419c36c632c23a1e1fcc767a6d32bf9fad5fff8f8d9b0050fc", "19c33598bccb8a6d9c0c25bebe2b7cd9a47bd09241af06e4c82830d78f97c4170228acd60f14c0502208b7c1c2dc1c057c50152c41c28827800613df3677b816356b"]),
(528, ["a7abe87ceb32df6f6819352cfb389fa3e39d69837ef18ce2ebe18786452d2530b9fd25ed46be13b40ac2f415b53721d6531ba943f7deff719922b77443e97b48db43", "1b1f00ce29ae0a494cd3fe74c5b8fb370890478199f3976b1066d5fd44541b5a75d6e7c4693445fa39c7c0945644a4e35453026f32da9acfd088b5dc202967f3646f", "8c8ce7aec184d5261b4536b8357fa46cdb0d2201e4fdf577db7ab18900d909d644263e28dd89cdb9d0fb33815ef27cf2fec8a6d4c50464a1c89a019823c0135576d4", "0", "29eafa1f3accb7dbda064d4b3ece27e8f8e75a60dfbc6338baf861e1914b494c2e7f497b51af84ed02b0bd056d4dc87594c6ea50fdf7bfdc6648addd10fa5ed236d1", "4", "7d022d9f77cc084f8aee82b4d37214057134b9bc5c1c0a0e5ffddd2fd575141394629befb22d312056140577dbfb989314507daeb3296da49021d6aca0331f2a8d5", "6995b1b15f678509c2c53a30ca462bea22df75101fbe79e2bc815de37f73855a71e7cb347ff45a0f4fce42ddaea1563ad994ff9d6ed3e459cdbb19fc6633d125d970"]),
(529, ["15c4511f1b3c2fa9f56f97bb0e39e0731170f90085935ac360307d153db085e5d12a15ff318a75161a023d18d42406cf6d2e7b18b7ed42df5479187b175e29d77acab", "1586d5a7f5c1fa630fc28671c987a3addb23075ac116db87733d7f6abb728d36b1350bda4ec52c44b5ea2d04e2d42bb4166ad2745ecd2ac61028a38898b67717f182e", "3d7b77257a3546e5ad114944b23cc5364df1a5c47c7f3becf2fdaa823df8af1ff50a24e2c548d164181013f14fdb1b56c3a8a459201819445074f27ea7b2bf8947d", "0", "5711447c6cf0bea7d5be5eec38e781cc45c3e402164d6b0d80c1f454f6c2179744a857fcc629d4586808f46350901b3db4b9ec62dfb50b7d51e461ec5d78a75deb2b", "4", "13f592ca1dcb56c306b77923091b32cff8938b94a1a0863c12019a18a2279cc44f5dd038f647270053970876686eccfcc76d976bb63026e46578bd57976ddae6529c8", "b71dee0bbbc2ba9511422f2f7042c9ebe82cb07c255027b10c9abc8503ea4880595f24a453b3b7f7fc3209540532b4a8fd58fcc22881c129fd3853e94265cf6f5b71"]),
(530, ["2e0b80822e2fba43d75d3f54f6a1783e07b46781e6bed434297319e58a5bb9152bce161d18b5eb563b0f19f966d1ce309c44e9d6b46d246d5a0f1648892ef4f2809fb", "3e13aa7977000619f5daa869fdd1e4087ae00506633ce35f5bee0a400bba50172d3c20971a72dfb061488e4fab9b799d0b2b6a4045fe235f061b77435e40e4e16a6d", "2a2a45da96bfb9e237ff94ce56c459fd80066731808b05fe33b4394189a01413b8fa5413a70ebd5b34fa91146c181696cb923332b00d423769ad5ed4534ae6a469f8e", "0", "b82e0208b8bee90f5d74fd53da85e0f81ed19e079afb50d0a5cc6796296ee454af38587462d7ad58ec3c67e59b4738c27113a75ad1b491b5683c592224bbd3ca027f", "4", "4f4b9b8fedf3e02754be2f848f02083f134dfe6338db162dc7cf6df69e11eaa90667cd559ec688a5955143e38bb8b8adb620c31abe67231e07ed858937dea180a706", "1595fd685ef77d0b01a05f5f42c63781e836a181152732c972fb2b0462a7771aae8cccb5f74120984b15ab29d3a861ede56414c9a2d208871127b917ccd9f9eb2e905"]),
(640, ["82bdbf5f017af0f81cff89fc43ec7d912a686b92a7dcf7e99c477d09cbcb451937864b59a09cf100bf389b15757a6e433f9a26b24ee964e801b1275e99c2975d6dc07ef9936c83dd1f275db9f5dd8bd3", "11c58a2a5aaf836e5b18fb8957e0137e9ecc18c405ae80528ecc6629b00c31b1d7317bcc2ea5c10b0cdd3c96944ab5491d1862d52662eb1ab903fd13cf3f7860d342059d0a02513000ce7173880d60ea", "70f83534a6cb6d89c1e68e72ec0c6a128b9c52cea22e77970d7b16e01bbf13676054cf8d71f72ff5b25b5e7ee12fb8fa2281c3dd288679cd48ad2a4aca831efc9a7e795c896a32ad1e58ec466dd02ae9", "0", "20af6fd7c05ebc3e073fe27f10fb1f644a9a1ae4a9f73dfa6711df4272f2d1464de192d668273c402fce26c55d5e9b90cfe689ac93ba593a006c49d7a670a5d75b701fbe64db20f747c9d76e7d7762f5", "4", "4ef03940388e1123811810df170794cf8db430b71a768efe062c1c8eb01213be2dbbd4502fbd503726c9da3303e40bccea0292a9281f1977b3307e2fd9dfcdd94ab6b9cad33dacdbffaaf4e4edfe7b03", "643fd2bc34347c3eb8a5599b3cd277fbbdb72852cc5e5e6a0b756f1078372c9bfdbd86bb847b0b19fbab500750f6f11aa6f6228654d65effbb1cda058b15749a9c47b5a514a440715311075bd2820c7d"]),
(801, ["1b13c7148ae9c5536cec6c4770dc6f943f2ed20f0c2ff2f4b0f8da76f519be4ed4a460cf3a7cdc03fdf9e116c5090298e38e5f0f94ab5f7beeb6c7ab1e6d8dd912ee111635ff24b979268f48bb975f8f221746b9fe84d22818858238354531b4841d5fb23", "1134825d4a04e29f7574e556feec787d228c05d770fe841306b0b834b934a924810b3a42f20ceb1a92081ba198c80fb4edf85789149769cb8f4928897c53d1d74c0a964bc237f5f45852f233faed7cdd0fd04629512b1345f6183fbf2a2611868a09ca014", "9df44b740e4e2b3f77786f071eff7171ca2cc379b316ee1aa4822423be5152a5399268c486ff0e96bf1c5752c40f2e3f59607868013f5b05f6d9f21a219bc01c6e37aca73c72ec520d39d14c0a9e2b212470090ad59bee2226d42790b1f202dfa1395b0f", "0", "6c4f1c522ba7154db3b1b11dc371be50fcbb483c30bfcbd2c3e369dbd466f93b5291833ce9f3700ff7e7845b14240a638e397c3e52ad7defbadb1eac79b637644bb84458d7fc92e5e49a3d22ee5d7e3c885d1ae7fa1348a0621608e0d514c6d210757ec9", "4", "1a2ddb1155221e6671ec294c68b8c489eb3d496e4dbcd069b7a1d7b03c5fa6d6d11cf03ea1a721f937c9a593ff4e9653e8ea278585555c06bb6d30d8e88791b778207454ef69ff45bfef470ccc1a16819a7a4447aaaf01b4f774f823b3573c098a9336658", "ef274942ce58caabd6d9181a64d5ee58de9b55b410dff77d832bcd8f9455bcad11db2753e3bc87673488342a7abc29ae5eaddd27b1f8b0c14759ffbcc1160400812e30c1b5002325138d56ac5ec95565087878d413996e4fa438f3182794bb5b8e2286ba"]),
(1031, ["7da3b7be0508fd3343beb5fecd4bb028ac8fbb5bdda882fd8ccfaeec1f0940aacf051a9526ecd49f07fc4c3534f28125a14e810f8478add2ad56d9ab1aa5588951c4df20e97bf6aff42858b4b4ae3de7d9558e02eb7209c75eafa9818bb5f3d85141edc06fb8604615455f48f702cc2022d6cc07a377ba3a4e67f24d376099d02b", "26fda17ec745ac2fa55c2bbcebe36573c212754bd435de528c4de4ea9db6252621014df708fc42cc7272e7f5930507f8c71466f70baa90054ad54812c7f521335856465a5109f61547c97375f68693ee4bd83f23356e9357bcd5dbaa6c6f8226ee12e13c491e83d63bed9ebd0c0ca0775f0bbe9476ab6e27b706b6a61bd97fe41b", "56a6163f3dc351039e628a41e1684ab4ea7d46100972a4ab0081ca0181531b84ae03cc9e1df091d29589643fa1ed792cda3a1a1878ce1dcd6281919852b03755f96e98c69872009aac5ee53ebe27a9f98d7d4edfb603766fa1d9cdd71f4671b1632f0c842699dc6fd957c08beaf62ba8c3cb0d732ccc4c1297613ba71b8719ec10", "0", "1f68edef81423f4cd0efad7fb352ec0a2b23eed6f76a20bf6333ebbb07c2502ab3c146a549bb3527c1ff130d4d3ca0496853a043e11e2b74ab55b66ac6a95622547137c83a5efdabfd0a162d2d2b8f79f6556380badc8271d7abea6062ed7cf614507b701bee1811855157d23dc0b30808b5b301e8ddee8e9399fc934dd826740b", "4", "aae3881b14da934cae1a3cb58aefab05adf1ed9cd9f28499b0f2730e991a630f6b4180332387bfdddeb69be0f20053d15aafb01132f6772a9a7d27452c69c4ff9e5f2c046df86f97eb089833ee1e91dab4814c58c250200bb0d318154fb1a7c828aabb984a3da611cd5e9ccd929a1d6c63bc12c2efe814244ef565c7894e1c255", "5e1020a5df6f807fa64969a0669d863a4b1dcdb0784c866e7e720042276c39f58367343a83847ff204848e6d3948157f3997935cabf276addf2b6c49d906c533a2e022bac8164d2266761076e5d6f2afa6b6360fc39db06abad7bb4c126c0d38568709e9386992234391c1ac60d15afe2b59f52648e956ec693c305d6d47a59164"]),
];
#[rustfmt::skip]
pub const M: &[(u32, [&str; 8])] = &[
(6, ["2b", "0", "2", "2", "b", "4", "14", "16"]),
(7, ["43", "0", "9", "3", "11", "4", "40", "23"]),
(8, ["a3", "0", "88", "1", "29", "4", "22", "a1"]),
(9, ["14b", "0", "27", "1", "53", "4", "5f", "9"]),
(10, ["38b", "0", "92", "1", "e3", "4", "248", "381"]),
(11, ["5fb", "0", "58a", "2", "17f", "4", "4b9", "391"]),
(12, ["ddb", "0", "18c", "2", "377", "4", "4db", "525"]),
(13, ["191b", "0", "4d7", "2", "647", "4", "86d", "c3a"]),
(14, ["20fb", "0", "536", "2", "83f", "4", "db8", "11f7"]),
(15, ["6fbb", "0", "3a18", "1", "1bef", "4", "181e", "5da6"]),
(16, ["fdf3", "0", "251c", "3", "3f7d", "4", "d0ad", "bf68"]),
(17, ["19cdb", "0", "1633", "6", "6737", "4", "949c", "9f9"]),
(18, ["34a0b", "0", "524c", "2", "d283", "4", "23837", "ccf2"]),
(19, ["62503", "0", "550ea", "1", "18941", "4", "58769", "5c883"]),
(20, ["e873b", "0", "bfe99", "3", "3a1cf", "4", "7bb55", "94dc9"]),
(21, ["12e353", "0", "d45f1", "5", "4b8d5", "4", "22c0", "2a773"]),
(22, ["3edfa3", "0", "1983b0", "1", "fb7e9", "4", "292e57", "10cd49"]),
(23, ["628c03", "0", "4fe007", "4", "18a301", "4", "5d34d4", "602d17"]),
(24, ["9525eb", "0", "abd89", "3", "25497b", "4", "20811f", "3be0f2"]),
(25, ["10f4bab", "0", "d1ec9a", "1", "43d2eb", "4", "87816f", "7cf5bd"]),
(26, ["2508c5b", "0", "2006e8", "1", "942317", "4", "814a51", "1e8c273"]),
(27, ["505d84b", "0", "46e9186", "7", "1417613", "4", "41e4129", "138fdca"]),
(28, ["8b29e6b", "0", "4c9bff5", "3", "22ca79b", "4", "1fc773e", "5dc8782"]),
(29, ["1936feeb", "0", "3d1499e", "1", "64dbfbb", "4", "d2ac9a0", "1274f17b"]),
(30, ["202c9813", "0", "c1a88ec", "1", "80b2605", "4", "1d67b1f3", "1a74ac11"]),
(31, ["5fac8773", "0", "cea6f85", "1", "17eb21dd", "4", "16f435c5", "1fa367d3"]),
(32, ["8427b563", "0", "567d6c7a", "1", "2109ed59", "4", "38eb79b2", "1744c4aa"]),
(33, ["10103aceb", "0", "12abc20e", "2", "4040eb3b", "4", "4bfca966", "fe3d62ad"]),
(34, ["3c2c11273", "0", "26fd6e1e7", "1", "f0b0449d", "4", "21834f892", "3738dbd84"]),
(35, ["50bf7090b", "0", "16733ba3c", "1", "142fdc243", "4", "37e40e558", "1528688b9"]),
(36, ["b8442bae3", "0", "aa127a056", "1", "2e110aeb9", "4", "6d3d75065", "30ddea814"]),
(37, ["106d9af29b", "0", "48c5051f8", "2", "41b66bca7", "4", "f7e39b99", "7fa360f98"]),
(38, ["276c454033", "0", "fa2b39e94", "1", "9db11500d", "4", "20da26630", "11f9349d32"]),
(39, ["4488ce9deb", "0", "1954eab00", "1", "112233a77b", "4", "1cf45969ae", "3ff84459f"]),
(40, ["beeb476ed3", "0", "7d69d84c9a", "1", "2fbad1dbb5", "4", "8097d8314f", "8c503278c3"]),
(41, ["1c471ddebc3", "0", "103cef36e7c", "4", "711c777af1", "4", "9def2e2edd", "f245882841"]),
(42, ["2cc5576b0bb", "0", "761a9ece2e", "3", "b3155dac2f", "4", "2981492020d", "181723c4985"]),
(43, ["65c4d9164a3", "0", "149d29c635f", "1", "19713645929", "4", "2d9058931cc", "33e02071f94"]),
(44, ["b4e9d13f43b", "0", "ad944b7bd3b", "1", "2d3a744fd0f", "4", "44733bee507", "860b9cef369"]),
(45, ["1a8452623893", "0", "3e41fee67f7", "6", "6a114988e25", "4", "d85c25b0d16", "64d88c8125"]),
(46, ["326609208f73", "0", "213cfcbf86a9", "5", "c99824823dd", "4", "f3453983d9f", "17dc3eca805d"]),
(47, ["434fe08ec66b", "0", "201ef8a4e7a0", "2", "10d3f823b19b", "4", "2188720c6830", "34f4b6ed9870"]),
(48, ["cbf5ae3229cb", "0", "7888b07e0e27", "1", "32fd6b8c8a73", "4", "2a68c5f22486", "acb8a5821232"]),
(49, ["160857cdec08b", "0", "4cd162e79eb3", "1", "58215f37b023", "4", "9ffe1594a7c2", "692f54a71afa"]),
(50, ["35cc642494c63", "0", "17c84715ec55c", "2", "d73190925319", "4", "31ff55efb54f7", "29c0c6325dc4e"]),
(51, ["643846c85b91b", "0", "391a04dae65d7", "2", "190e11b216e47", "4", "1c3350c0f3471", "6419213c596ae"]),
(52, ["cc0f74c07350b", "0", "91a0df204f7c7", "1", "3303dd301cd43", "4", "af85a6c934eff", "6c56cb9e9da3e"]),
(53, ["1e328e7773362b", "0", "1fa5017db81cd", "1", "78ca39ddccd8b", "4", "16a9eed0574c08", "175fde519656ae"]),
(54, ["20baa40efe168b", "0", "142c173063799d", "2", "82ea903bf85a3", "4", "9da1b2181e7e", "b017f184aca52"]),
(55, ["6347db66ee2c9b", "0", "1086ca391e4924", "1", "18d1f6d9bb8b27", "4", "7212fa0423835", "2d11d165f270ae"]),
(56, ["efb1bc16b474db", "0", "6aacb08bad0339", "1", "3bec6f05ad1d37", "4", "4207c90a1e2c71", "ac83ba47a28c4d"]),
(57, ["1c647df9ce82e13", "0", "1a783f50adfd2a2", "3", "7191f7e73a0b85", "4", "12b6d6ce09e8a72", "7d2d627a0d3076"]),
(58, ["2425641644f1c5b", "0", "233f47c3d26bc58", "2", "9095905913c717", "4", "43e358263f3a07", "24198d6e4a724c2"]),
(59, ["420a155732333eb", "0", "1bdded801a43020", "1", "10828555cc8ccfb", "4", "263c591352d3f8d", "353e9ce212b86d"]),
(60, ["907236b2ebe6903", "0", "66d7e7136846c7a", "6", "241c8dacbaf9a41", "4", "1cf6bb65c1c33d7", "299b19663946044"]),
(61, ["17155468d6561dd3", "0", "ced9b4a70f29dcd", "2", "5c5551a35958775", "4", "3253bdf03fe1919", "465ec21313214b6"]),
(62, ["381104c08a6f5b43", "0", "7fc35e78c430f85", "1", "e044130229bd6d1", "4", "2f22154f1c1d42c2", "19d6194cfbe9ea49"]),
(63, ["7dcc7746ef31315b", "0", "26fbf65636c3a9cd", "6", "1f731dd1bbcc4c57", "4", "600d6d9138ec2852", "f39d033891700a"]),
(64, ["926fb6f69f1884ab", "0", "651e5b1e22f9543f", "5", "249bedbda7c6212b", "4", "2db1910c3aa632aa", "3bb2104edd0e123c"]),
(65, ["11d5f4020db5257a3", "0", "55c660284571cc21", "2", "4757d00836d495e9", "4", "5e564a592dbe18e4", "11c711b268d8bd151"]),
(66, ["399e520f5009d8803", "0", "14d4242578109dbcf", "6", "e679483d40276201", "4", "328d5f561c9a8df9f", "30ad105fa7f3d559e"]),
(67, ["4da87a5cab55311a3", "0", "c880ffa54a89c74b", "2", "136a1e972ad54c469", "4", "205eacf72c3c17c64", "4b3de99cfbe63d718"]),
(68, ["b6cdc6475d72744cb", "0", "1ab3127d15d2bf5fb", "4", "2db37191d75c9d133", "4", "64072844d464e8a5c", "6d532e6d082d45ba9"]),
(69, ["12d1e5ed1aeae90903", "0", "6d774c5d8275aa4db", "2", "4b4797b46baba4241", "4", "237d0665a8e411af4", "ed0208b317d00d7e9"]),
(70, ["3dfc5784451ea6f203", "0", "b4fdf252a0497a7d7", "5", "f7f15e11147a9bc81", "4", "a68e0a3faa17603f3", "2e5be02e4f08c204ec"]),
(71, ["60e6c03a2f8c547743", "0", "37d7f8eed62dc68f89", "3", "1839b00e8be3151dd1", "4", "52e0ae89bdefb7e712", "33eec24c857d9fb860"]),
(72, ["862748683439a51ecb", "0", "9c661536621e1af15", "4", "2189d21a0d0e6947b3", "4", "540067b3d60cd4e49a", "3dbc96e8166364560b"]),
(79, ["6d505a65917833de386b", "0", "59fd5f56a21250dfdd0a", "1", "1b541699645e0cf78e1b", "4", "5c9afa9836467a1e2b45", "5b06d2c9c901e810d8af"]),
(80, ["91b8be7b9c514aa4544b", "0", "61fdd993ec9c88c66e41", "2", "246e2f9ee71452a91513", "4", "4ab9c80a1c27bb1dd2b8", "747cb55939b5eda9d985"]),
(81, ["127c9c6c67d3e6326fbeb", "0", "b21ed7d5fd37062efafc", "2", "49f271b19f4f98c9befb", "4", "ac64c9895ff64ea155ce", "661725561225af78025"]),
(82, ["209f04d80e3a624eb04cb", "0", "1507346d358f6df524d8a", "1", "827c136038e9893ac133", "4", "133d08194540c3a1c342a", "1abacc430d062d4d63821"]),
(83, ["67d28b9e7c3dc7ccde1e3", "0", "1b03a31829e6ec7f24a2a", "d", "19f4a2e79f0f71f337879", "4", "87a5b36eef4b87f4d023", "1adbda0d2fced1d22a741"]),
(95, ["40cb51ae9f606853e521cdbb", "0", "24ef2208b64683037977e48", "2", "1032d46ba7d81a14f948736f", "4", "39989623eaa917ffb127113b", "ecc86aa44048b3c85b09ae8"]),
(96, ["87e94c96f5a8b201b0eb2be3", "0", "48aa7f4e09720ef30888a305", "1", "21fa5325bd6a2c806c3acaf9", "4", "82085f86d8aaa1cc3d3c3a16", "4f6ad68e86e655ea98a66328"]),
(97, ["193c0a6fd8dd3ad33ce7f56e3", "0", "1623e0b38d86718ea8ad9e7a1", "4", "64f029bf6374eb4cf39fd5b9", "4", "a2073aca659a172bd5f4c745", "a5450d4bcddd6c9ee317d63b"]),
(98, ["2046afe86fa9d3b5817f4a593", "0", "c4ae40deadeccc56bf92dc47", "1", "811abfa1bea74ed605fd2965", "4", "fd21e35597a88f0254793948", "7f9be39f9cee5c5cee0ab0f6"]),
(99, ["72eed988ebbc90776a024a4fb", "0", "460f5e6ec87b8f38622e95bce", "2", "1cbbb6623aef241dda809293f", "4", "6a92a1130931fd2faffdba93e", "3325a2820b0d08856adc87da1"]),
(111, ["517a18f2efe42775faef9449bf03", "0", "191de6dde125634222b73410d334", "1", "145e863cbbf909dd7ebbe5126fc1", "4", "4cbb6d39735379648f255ab09d6d", "3e4c5236bce49c2c477ef6cde43"]),
(112, ["e643b1ed1561d5bde1837c4643eb", "0", "3087296cbb21388fd4d2069e799e", "1", "3990ec7b4558756f7860df1190fb", "4", "99d10074ebd3ae44da04d757d76d", "bb60fea736ff37211766e6ac522f"]),
(113, ["10693ba658727e2585b1bb4aca6e3", "0", "189240bb0df18dac7d0fca247b07", "2", "41a4ee9961c9f89616c6ed2b29b9", "4", "5d4b9095135dbb8049b456328d54", "ceea0dc72b78ab9888cd5212dd9c"]),
(114, ["283168df2349cc9240628ac4b6303", "0", "22edc61755ece7b79258d11337fd8", "4", "a0c5a37c8d273249018a2b12d8c1", "4", "16303caec80cb65eeb2ac4196ca0d", "18e13e7c30c37d24d0eb6d3281ddf"]),
(115, ["5c91ee16219b894cb9036d0bf2bdb", "0", "179dd64bbc2a88a8765cda43bb6ba", "3", "17247b858866e2532e40db42fcaf7", "4", "2b93c00d9f87e74920d9c8ab1590d", "40918fdaf12e4a08e2c2b01a55492"]),
(127, ["5abea3616e61a3d8ea2ca92890d0ef3b", "0", "519c9a92fb0e6668cd3bb9508d6977e6", "1", "16afa8d85b9868f63a8b2a4a24343bcf", "4", "14336679b030ceabcf9449b517aabe27", "4eb2309bd328ccae92d68ecbf447e16b"]),
(128, ["c7cd19f2a00e04d393120e6353f61e3b", "0", "c56d8f83168a6568378d5d622e25dad0", "3", "31f3467ca8038134e4c48398d4fd878f", "4", "4412d859f0cee6bbf3339ae2a79a3a5", "99db639793d760599c308e3a04f9dec5"]),
(129, ["1aa055c32fcd200738fa3af510df5096b", "0", "180ccc34dbc6b50379c21804f32ada8ef", "4", "6a81570cbf34801ce3e8ebd4437d425b", "4", "176303f79a63bbea156c4ccba850fa0ed", "ee15426e4619ce018ed88705d2007a9f"]),
(130, ["3bb62200fcbe6dcef58bdb21d3f724263", "0", "c0e66a58afa19064cf1bcae0343dffcd", "4", "eed88803f2f9b73bd62f6c874fdc9099", "4", "16571cd5ed7c6616e4afc5b8a2f792315", "202237a4dbbb57f37c53eb159ac1c8ea1"]),
(131, ["57b1596dbba6a34f7c9498c1881014d6b", "0", "1c98276fe5dffeb2edbf5343a6308bf92", "1", "15ec565b6ee9a8d3df25263062040535b", "4", "4170140e2d480547a405ea5da3c0772ee", "284396cd57047b40d9688825b5f973f9e"]),
(143, ["6c32732440a87f765ddfaa7579e65f07f80b", "0", "3e7665bf4fb261183bcc5b894bcbaa58c583", "7", "1b0c9cc9102a1fdd9777ea9d5e7997c1fe03", "4", "49ec481b9941a90a72cca77b93803a1433ba", "8e65c661e40c32206b5469b0500b3b4b23b"]),
(144, ["e9ac966ee02d6d99fba094ce6cdc8c1e1a33", "0", "2ff575ac2ee93d47b13fb08241942397d0b", "2", "3a6b259bb80b5b667ee825339b372307868d", "4", "5b7e6dabdb0abb5d84d86a79ccfd408c978a", "80b45d47898c8a293a485586240b4fd398be"]),
(145, ["1d99310bb57e04a5c699032d43e08ff33431b", "0", "1ab4250ccc0b89d030392a1e5ca0fbd50603b", "6", "7664c42ed5f812971a640cb50f823fccd0c7", "4", "40cb8e73160e5d18ff519c19dd92d967fad5", "138ffac4993dd0edf8c3916551bd5b5e233c7"]),
(146, ["2ca6770395108bf86123f91bec3609023281b", "0", "1ff08a136398c9dae548296a15d2730e3b81f", "a", "b299dc0e54422fe1848fe46fb0d82408ca07", "4", "122f17626fae73c309b3496464c5cc1f79e6b", "13faefacecdf45940130888fb845e108628dc"]),
(147, ["68e5b055802e5428b9fde83f5bc8f55ac3c4b", "0", "2829e974d907991908b3cad0c7c79938f66ef", "2", "1a396c15600b950a2e7f7a0fd6f23d56b0f13", "4", "23916fc4b4c7d40b0eb623bf23f40978f16f4", "11fb26c09883b7abf502308ef73310a7c88d0"]),
(159, ["44b30dd646f4fc3afe31dcd8f74ac004a6d85e03", "0", "84d388b23410c54a6b3f221a1b047839a85d8fc", "4", "112cc37591bd3f0ebf8c77363dd2b00129b61781", "4", "2602e28f39834642be56585d7a9b1cc7b4db7d2d", "27d5958edcc2a7851ae5c4415344cd38ffe92ca9"]),
(160, ["a3b9fca672d5d5c24b9bc28910eafb65bc25336b", "0", "89b7771df1fee6620eb1ef1a8bef3b5be11ebe64", "1", "28ee7f299cb5757092e6f0a2443abed96f094cdb", "4", "1f0a9c88f7b8bcc09cd66adf82c6815cf9a0f364", "3d20aff41ef506118128ad36295c60994c20c3a1"]),
(161, ["13a9237c27f55fe7b884fad3c033957f29b7f1bcb", "0", "123ce7ce4ae69ec44628b36d26ece49f2b706bd8d", "6", "4ea48df09fd57f9ee213eb4f00ce55fca6dfc6f3", "4", "4a54cb099003eded536e48ca6f5d37dcf061bf17", "6108cc5a78716918976cb2aad4f63bcbea87e9de"]),
(162, ["37a0b88998da0844d49902c18a46a6e8e4b3c0443", "0", "b394dcd207a8c9a5a0b1deeba258bbfd487c7d78", "2", "de82e2266368211352640b06291a9ba392cf0111", "4", "1d0c4acdc4aa1255363eb3026dcfa2df65abf939e", "3677c4009eddbd34f6e0474d3063a790af2f227e4"]),
(163, ["6f8ff4a800265e0d211c6b2e5f1948b2b1295775b", "0", "2c2cc913c7b1c56e2bc77db18c84a2b7924f6b1c4", "2", "1be3fd2a0009978348471acb97c6522cac4a55dd7", "4", "6db7122921542220b60ec06b3188c929f34da5ef8", "252cf35c73303195eb9e5dfea4f02f03f2511d8a4"]),
(175, ["4f14dfde979f313b27c1eaf4a7c471e9d9d319cbf49b", "0", "1f8e3ba3a44d49bd30467e4b72cd31987a61f487d609", "1", "13c537f7a5e7cc4ec9f07abd29f11c7a7674c672fd27", "4", "3f2af6c0cf7528ff5eabe3881853a69e8993d594c9eb", "940b4243a4093d82a66fa393e2efea10ceb99b35564"]),
(176, ["d05a7833d6a05dc6eaad8bb3e61f2343597f60b18f93", "0", "c6c2bb5b245f6e4d6938b10b79d6a17544943718b85a", "1", "34169e0cf5a81771baab62ecf987c8d0d65fd82c63e5", "4", "50f08350d0852c568d8f2194783f69f5a0577ebba272", "2907465c98020d16f3962639e2e869c1a08395b4c3af"]),
(177, ["1557454120687e6c358de9ec288953e55a98c5c909c93", "0", "10a96c444987c9d961c18a07c1d49977afde4bfd1ae53", "5", "555d150481a1f9b0d637a7b0a2254f956a6317242725", "4", "2d069e46277c7f76e861f8a15b6ee646cbcc018ff6d", "f7d0ca168a628aaec330e2fe4f9fdb0ce21ec8cbdf99"]),
(178, ["2481b9e7dfa4d049c55573c59210e697417f8ba6cc59b", "0", "1a7eea6ea6992c2fdf27105493d4be3767c780fb38b88", "1", "9206e79f7e9341271555cf1648439a5d05fe2e9b3167", "4", "420fb278a8ae0032da6f5e4c30ece39b29f498e4989d", "14d9b327896f09f4337ccca6c474a9cc97a1bffc6f9bd"]),
(179, ["4a880fadd59e243b2d86d35f4b7b3243ded8bbfe84aa3", "0", "18d4ff9a4e3628b02e4be312d9fc8ee96cc2ba39a5632", "3", "12a203eb7567890ecb61b4d7d2decc90f7b62effa12a9", "4", "3d428d4a7804ff32d8568ba1684dabe63b51c91b9a3d8", "2a1ab2b6eadc40ee822a041052eb22db95ce30a78a37"]),
(191, ["5db16755eede759f80879adc5d748a84e7b512dad9b64ed3", "0", "24bb291db6a51cd6ff7024d143ec945f541db4aa85d0011e", "9", "176c59d57bb79d67e021e6b7175d22a139ed44b6b66d93b5", "4", "3e4059c325aa32b1a2071f7f9f4b7acc4390e31e8fc17071", "2888dcda2ba626945732350a9af862897b2eab485c35e6a1"]),
(192, ["d03d46622fb664afafd6caf4f4968af4a0a0ad103db60a53", "0", "504a23b4cffa0b794ebc1bcde1652a4910b9e4f428ca4c39", "6", "340f51988bed992bebf5b2bd3d25a2bd28282b440f6d8295", "4", "692f3a9f321bf60c3b9ceaeab0bce176251dae9398f51b89", "b2900d3a6fa12c227ee903eef7b6c88483b0977eed86494f"]),
(193, ["1f1b39ffcb7b0572466698494a792a1fafed1feedce922e33", "0", "8691c194ed4315676908b2269775afd49caa8200eb264466", "1", "7c6ce7ff2dec15c9199a612529e4a87ebfb47fbb73a48b8d", "4", "16f78bb479c34deecce4322320acd27396211437c1ac063c2", "8152fcd344286860afd6b1ab19dbd3c3a5c54258b1c5c577"]),
(194, ["2c1d268c80f3510068adef12901de73f3ac6739f8d1c809fb", "0", "24b7a5383479d218b492214140a68034ee64690107da59772", "2", "b0749a3203cd4401a2b7bc4a40779cfceb19ce7e3472027f", "4", "18ba94b53508380699d0705b6909437aeb47b7d0037df5dff", "d21d7519f6c2a2d2c4092b86f3355bbcf4802a2ecdbbdc60"]),
(195, ["7c81c519a5fa5217867ba09213dc69b6bf1edac01f261c8d3", "0", "5de80c15033d2e2aeedfc81b53c9c3f160f9184e6ff3b919b", "5", "1f207146697e9485e19ee82484f71a6dafc7b6b007c987235", "4", "74fb16702a7f4375dcfccff1333aed50a5f4344d8dbebfba6", "1891c21637ba0813562fb9089e698907ba92bfe958bff888b"]),
(207, ["638b8a665dc720c1f337513b183bc86cbf59ac8ff959bc8c09db", "0", "130019f5ee58be6394aa2a7739f30d8c6feb4e8e55332903fc0d", "2", "18e2e2999771c8307ccdd44ec60ef21b2fd66b23fe566f230277", "4", "476a72d96e774974bcec4f22026f77b3ccc618b45b62704aa4d6", "44802c5959c49a60917b3b835a4812dd00f3140fe387fec63c69"]),
(208, ["add6f1ed82e7768f331157989f628f35c3b957c27bfab09c2cd3", "0", "1a8e238cd11488a1a61ffe6369f26cae7fa071341e3b2ac5224d", "5", "2b75bc7b60b9dda3ccc455e627d8a3cd70ee55f09efeac270b35", "4", "2175fb021a69ddb1fd1d5c203f1b0629e4db8dff5e6c6afd3aa2", "40ae8bc0f0240f0bef464d1313402001f2a03897e7d890e3423c"]),
(209, ["1f233fd561769c78b70538534794e2964be4ea6df5ca7da029dc3", "0", "1f14b846843d89d5535fd6d10681ccf05841a651f452b481d0536", "3", "7c8cff5585da71e2dc14e14d1e538a592f93a9b7d729f680a771", "4", "1279a16f9e02d1e1400de1bc9fab3966efd4161d38b05fa90700d", "1e0f585e1be65f0236acdf69a12492cf18626dad6e36380d8ab3"]),
(210, ["24870a241334a04bb5b7af64295ed4ea257601de57f11f64fb983", "0", "2f4790bd0068984cf33a443a5be2995b884f39c69a4f163dd17b", "2", "921c28904cd2812ed6debd90a57b53a895d807795fc47d93ee61", "4", "ee6101988ed8d640bdcb6e3ff2c5df7e5bf11c0241a2901c0e8e", "18c94e6c2395f90be1a901e945e6b3f61b17174792d4174970f1d"]),
(211, ["7b7430c01b2625e699ebe4b238b9d62d4991d06cfdce20d7665b3", "0", "72d2aee0132a64965b9adff0ee64f9bcd83e6980e908437d13158", "5", "1edd0c3006c98979a67af92c8e2e758b5264741b3f738835d996d", "4", "5b24a5504d96e290eda9003d12f7624c392032b0b08eed42ef9f2", "1c38e27da077898e42e42ba123e3d052213c41b9db73933baf6b0"]),
(223, ["4516ec71ecd7d18a73f28eb73c6e818d54d5df94d3c0e17e19e3de23", "0", "1c6d6d2595a59d671fff1d9ed61cdf543733300a5be056b9ed1d1ba2", "2", "1145bb1c7b35f4629cfca3adcf1ba063553577e534f0385f8678f789", "4", "5996cd9ac8ccd0846f4de0b1fa410a567ef2dd272abc12fe5e95312", "18540c9361ff172ca01c81d4687134a63d6707a6395305face972453"]),
(224, ["f69ab59d639eea3e084b73dd5cf622731680b9b6bfe6509170294beb", "0", "58980b70744e5cfa11cb81aff7b524935d74cc84da43d7f348a05ac1", "7", "3da6ad6758e7ba8f8212dcf7573d889cc5a02e6daff994245c0a52fb", "4", "a6dc637b75a68142e1df3797d011ce11e5258a7080967421ef88a203", "7ba8e048e9749356ac75d03772c875a1b87bec3ae092bf9cf39310e"]),
(225, ["1ded477c0a8cbaec49c0510694f8b3ced5e8b1f8c5ec9c083df7803db", "0", "4536df453534f51c784059a1005a1e3398399e015c1a9da131b24042", "1", "77b51df02a32ebb12701441a53e2cf3b57a2c7e317b27020f7de00f7", "4", "e4c06d88f6658cbc2c90a26e293b7e0bcbcf471147f1bb96874bedb5", "17293a576987dda634be3a4eb3a88144240342a029211a1eaa6910ab3"]),
(226, ["29f6d34d0e903f354b61c4eb43c6879b814fd97b7aee68f7ac0ea03a3", "0", "1651e829d622c883c0245f32862383a6e542ad1a2973eb61916b46d03", "4", "a7db4d343a40fcd52d8713ad0f1a1e6e053f65edebb9a3deb03a80e9", "4", "11e798b29b66b9098774fb288bb6b7fe88ef2fcba8ae73a4344b796d0", "186385e3f7ce9b1997c813703fa626f5a66b8631a7f2bf35981fc1f63"]),
(227, ["67aa8b5fc416fa47de8faf9e2aac0e0bf86ff183b23beba30ff45ab1b", "0", "4c640fc3696fe7d21e931a6474f9f96d2dfc00c3c4b1f767832836e69", "c", "19eaa2d7f105be91f7a3ebe78aab0382fe1bfc60ec8efae8c3fd16ac7", "4", "44faa12db0282e7af30ddce2ba30201884b570c20465b96eba2f8cc25", "2fee66d81ac2ef5e401d4ef75310fcaaaabab83e59627d80b6a7726ea"]),
(239, ["4649da2b475ec22903df0500f5211b25f236f16c457b50b55138b4123d73", "0", "309ca49e28c7dcf021979bb5f2f206974d9ef8dd6060b0a6bc4eaed738f6", "6", "1192768ad1d7b08a40f7c1403d4846c97c8dbc5b115ed42d544e2d048f5d", "4", "1ad13d7c0ac6c5f27b6dc4576438a00e2b43f10b433a571972ffcc29a0b7", "3d67fff31e97d84e14e29d435fc8d7194269a1c9db21647d63ca2924e761"]),
(240, ["988d1bb453dc8579cd999e97c8bae2d04cdfeb5ac2a499c922c19eed2063", "0", "54b188cb1cabc0791f2ce9a3a288e6d9c67109233405e4c34540f907c65c", "2", "262346ed14f7215e736667a5f22eb8b41337fad6b0a9267248b067bb4819", "4", "5957252f9d6e2f4b58c22b9fbd6e5fd90f9b1132f7c70ff39fa1cebd352c", "4a5379c7cf9f1d1217de07e38e1300a8728469aabe5bf8b8b55a241343f4"]),
(241, ["10065c20242c82ced92f20de60655881550132f1e4c94436039b4e57092fb", "0", "31379c01e1ec7c31309511241e4f3d076645cd1b9c7963d91acc19a8f168", "2", "4019708090b20b3b64bc8379819562055404cbc7932510d80e6d395c24bf", "4", "5ed7dbc20f2273d8afb8d9911e04b8124442924a74e68a79f7ee03febf9", "eb296419e633831d460744de558b3d0a871ef105a5c3395122b134c7e740"]),
(242, ["34380d820900034bc8c4226330c5690c666ecd331a49d580a0907c874e3d3", "0", "1ed68ae9407ee6676736822ffcc4e8a41281b1c86413523720b5f468fa3", "1", "d0e0360824000d2f2310898cc315a43199bb34cc692756028241f21d38f5", "4", "2ab13a40f920992be97dc7dc3f1d8e7e0ed42e05e46c1dc7c93daedd91a2", "3373f1e2056346767661b05e89c3fa9b52e1acf37a177ec8eb3f1ae6dbae1"]),
(243, ["7d0f8c6bc31f80112cf96e5df911823637cdc2bdfa9ffa96c6585402b17db", "0", "6114b2238ed5161b3d40aef474a4ee9fa4155381ef74f45165a6f603ea491", "4", "1f43e31af0c7e0044b3e5b977e44608d8df370af7ea7fea5b1961500ac5f7", "4", "7cfc7422b65efe4a3008f883fe208f83b49f1b2e7206597e3d44212ca5273", "7650baa77b06447be57e5b77e15438fee33a032e37ac68387bc8b77a1421c"]),
(255, ["67efc1611ea720f0022a31c27870b5f11f34aa751942866083517d6dad480ae3", "0", "15afba7b068a6f9f3c000d9bee0bad3a7fd8cec793d15e87fe0832116403e891", "2", "19fbf05847a9c83c008a8c709e1c2d7c47cd2a9d4650a19820d45f5b6b5202b9", "4", "11f0d7a8f6ba133dea632dfd8b2e3e73f9466662bc271b37f8472101988a0b95", "44a534c8f769272d3df13f405eee0b8672495ec828ed82b0f0a658f4ae2bb4a6"]),
(256, ["e52f38c1a382c3f83ed9faacf6855ae889682687565b7bf6c58d1051edd0c493", "0", "4fb9e1a89d14b12de1cd58cb0e4012a5a42765f295cfcd2a7bf1aba281f1719e", "2", "394bce3068e0b0fe0fb67eab3da156ba225a09a1d596defdb16344147b743125", "4", "b042feb63039b4b61ac8783bfd0f5283dc39c506fd87d33b7148045850c3dd4a", "c82527942898ae80725b36834ae9c48014a376b41026e8992b442babcbcf5308"]),
(257, ["10fba4af758599d50f44a8353a2f8fd6875cdd18008e04f844023fe52002b7b43", "0", "6b2162a8f4b3b814dcf2348484cd6f310f7076b53b656a4bc618d3fb368e4e15", "1", "43ee92bdd61667543d12a0d4e8be3f5a1d737460023813e11008ff94800aded1", "4", "86771ad0e83cf5a161329c4bb54a8ed7505b3d76a09876fef6bb0f7553bf379", "d67f38b3d883d155e5f41dc5ae7ffbe714dbc5913cbc59d44ffda78a10b3cf2"]),
(258, ["386ca3579c0345aa751b09506ad627645093f6f7cb1c9d8ea9f8cd49cc86b788b", "0", "6675b02ecab6f057c17dacd47c986e73c8258ad80c22c45aab0d5a79853c9e4d", "4", "e1b28d5e700d16a9d46c2541ab589d91424fdbdf2c72763aa7e33527321ade23", "4", "27d91b22521e51a72db13216bfa0ddccb8989b169ab40d29654908e58584f935d", "135902ad6434139a4cd24013e730e3d6429a93f337ec4f9b81cd0bcf183ea61b0"]),
(259, ["558560b4aaf15843f3b22b43da67f81f4d81ebf5b10519241ac80767f0eaecb63", "0", "31145df5eabf4b2c8bf6800012fbd329ce8d1a1d842474601fb35358f88a490a9", "1", "1561582d2abc5610fcec8ad0f699fe07d3607afd6c41464906b201d9fc3abb2d9", "4", "318dcdaf659941d05f42600df5bbce2dde740f8fad74539a79dd7f7926f61848", "3bee33f9ec9432b4c8e91530d8ce14d07fd78446a03e9a34a1b9d9f0efb12dba"]),
(271, ["6b0e9ae9a867343d06308434624b4bcbbb8fcaf44882353c3b937160a64e0e401fe3", "0", "dc27edc1bb9d0b4619cf11aa81f3c2fe285fd11343ff93ea72193821ec113828e90", "1", "1ac3a6ba6a19cd0f418c210d1892d2f2eee3f2bd12208d4f0ee4dc582993839007f9", "4", "2bccaeba80f563a023b2b0bd1fe0a9c7dca4b32aba9f362da066f7b94243d15f1870", "28bdb9466d2155e3eaa006551df365b5ca82c7c833b064ce925ae41ef3f2834d3da8"]),
(272, ["8ad6915a2ee8adee7dd60591cc087d2af2472ad9fb8d6073fd3cd623d56e8c273aab", "0", "7c02b450f846ce751d8e46f1eca10e8378cae8c338b9563fb9f0926724e0ad73c6e8", "6", "22b5a4568bba2b7b9f75816473021f4abc91cab67ee3581cff4f3588f55ba309ceab", "4", "8218bfd7dfd9c4a5449804b2e9c1598afcdbe792ec9d3622a0c21a1a2d536d048320", "6b269a0083850ea526ad813666372a11e6d7e744c80d2abd74a75b562861c89f9a3e"]),
(273, ["186ef2f176a5cdd5d861cbec0b350a89d0c32d004f7ce56f5a5e281ea03eeaaa2a89b", "0", "863669d70e08f369d401b6714e771a4823cd1e62252f4cd621b8fe7cf9fe8bbb9854", "5", "61bbcbc5da97375761872fb02cd42a27430cb4013df395bd6978a07a80fbaaa8aa27", "4", "1021537330c232b815d7f7b8f8b776fb568b86a101f00544ca961cbfaffe42d6db66e", "1774d9f6b02e55d3eac8540929ccd162a3dc70d88154b7ec806f522ce01874262fbc9"]),
(274, ["2fdcb4a742f1a4b653bb6e02cc172ad99367c4402d03a8ed73106a7d9be5a2663f10b", "0", "1edf5dc88ddf7be32d4b3621b8aaf6689cf2601ce12179c0bf98615aada07815246", "4", "bf72d29d0bc692d94eedb80b305cab664d9f1100b40ea3b5cc41a9f66f968998fc43", "4", "21b64ae4050e90e80c1f69500c2f81366b305472ec5bef06d19c076bac1ff8bb1a704", "3e8e37a1b8968d8c1187e15ddc6decbf1380c788f5189cbc8a7eab45f949a881bf55"]),
(275, ["645ea117ddaaca008edbe310243774b00ccfb1f7a895bdc846938de62fd31a0065c83", "0", "3b5e465f6f5fc75a8012038a53559313a10282d88a49f5cfd22f2ce295e7949541cf", "1", "1917a845f76ab28023b6f8c4090ddd2c0333ec7dea256f7211a4e3798bf4c68019721", "4", "1ab8b1f295d32d2c35f2f1cb411ea22b34c3d242c7e38a660787ca6e49ad42860a344", "2fafc47ccda49dd99874c6772cb33621fbdcafd529a09b071b3e7cee13df8feae4a51"]),
(287, ["6aa192c1469a0ddaa8bf7612053a575f84773412f1c68ff716011029d54bc1bf1c530723", "0", "6838a09df40495eaf4c80b906e0279012ae55c06c4628953daebda156d3fc4bf1cedeef2", "1", "1aa864b051a68376aa2fdd84814e95d7e11dcd04bc71a3fdc580440a7552f06fc714c1c9", "4", "9ae404f4526aa439ee9ecb91ad7a480f9607ea1a3281c7fefb83f9f48380ddbd1415773", "5041ef41a88ca592193db4271e7f02a3a65eb8f7f00625368c7c7688c28b57bbd3df8c4c"]),
(288, ["cb72f69b9beef821826ddaf92fec711f0f7929d1b7c8a4d35307e37b7f93443dc03b7e53", "0", "8d9575121db7c8974a23dd0df438228710face04e238a919bbf866de7de3bb84e04962f2", "5", "32dcbda6e6fbbe08609b76be4bfb1c47c3de4a746df22934d4c1f8dedfe4d10f700edf95", "4", "b0326b0dc81688d1f266ac3014a2de98fd16b40157627f3ce91c4db91485097bc2ad1011", "322c8d4b90d3c3296d0b533262a15c496e35ab42b17f833fb2d2ec04c49d225b61b42952"]),
(289, ["1d26cdf5432c624b073cc3377e9a760e0611e0a7824969caa4f65aee139351e9b29b9f8fb", "0", "1a2b723b1fc7973f6ca1611af4b4374d49e6c9ee766689e27776a9196dc7b52ad70b27dc6", "6", "749b37d50cb1892c1cf30cddfa69d8381847829e0925a72a93d96bb84e4d47a6ca6e7e3f", "4", "17c38f395c39909487e9f6f27472acd5bf627eb3f33cc7674efa14631e96cb4c013cbcc1a", "65bb75dcf3ccad28c57352180caccc9662fef227ce4cf6f111fe18f782a4bd523b5c23f"]),
(290, ["333a5c1c0a96dbd7a1823dd8ea586791f661a5717099c7a87d49bd7b6351199e735deeac3", "0", "1bd4834f10f1775a1fb012b8f2f8853abeca583b4c7d1cb599f06d5ca779dd6954a3bc0d9", "1", "cce970702a5b6f5e8608f763a9619e47d98695c5c2671ea1f526f5ed8d446679cd77bab1", "4", "2958db3dd5a5c231e67fbde8e9e26b871f8ab1d5060a1731174b428ae01d4457720f7351c", "ce0a4c676de893c9eb52303afd903169b8c877a099842dfd489bac9b8d1e79d85481b669"]),
(291, ["69e7c7cb5ef1490d97aae4ac3b61333e0b946936af50f7ef3642910c68dd3b4cb0352fe83", "0", "105895108781516aad33094fddba1eb38b443e15ad736dea7ce9f5c3c2db68f5eb33beeaa", "1", "1a79f1f2d7bc524365eab92b0ed84ccf82e51a4dabd43dfbcd90a4431a374ed32c0d4bfa1", "4", "2a8c9bfdaf84c9836dc8fd216f53fa74d5f9cc67233d1d33b132f3e83650d9949fa69ad80", "296fc9a212356f4d806594349c9f42312160a85eb10d684eaf76982308490077684763b53"]),
(303, ["56dee6de838dfe6d36c5c0af66f3c4a416d517d1718df554e1bb1992f2dcb51299f8b5e90753", "0", "c47fe09dfb83a444aa192c1c4d92b478b1afdc06da6af7c9d1440ecc64f355af5bba1b31c4d", "1", "15b7b9b7a0e37f9b4db1702bd9bcf12905b545f45c637d55386ec664bcb72d44a67e2d7a41d5", "4", "496b64760fb2629eee4f8a12fc9ae868d965fdee3a978f841dcc9c54783e48a8607ecfb9ed8d", "3a0c0a40b9b015ea502b34cef492cefd75aa8c996192d08ea8cd080eb931c5e3ccaf69428d33"]),
(304, ["a64377ba181bf9736d88e40c9657746351fd37bb4f7888149976239cae8f64aea023d10dc243", "0", "18fce64154489c42786209d03385605d5c84ed62f4a1088415ba809965bddf299a0c3194e278", "1", "2990ddee8606fe5cdb6239032595dd18d47f4deed3de2205265d88e72ba3d92ba808f4437091", "4", "47314ff95743546dc2dc17c09b2f8ed6fed6088cd5fe8b7fe0aacd3b454a41a7ed592c98deff", "47c5a9996fc3fdc57dedda68e6233fd7e820b0ea5d9ee3d6849093176d5f386741208c087e07"]),
(305, ["122f4656aecb8c635bfbbfd3b74de124acdde2072f7250741c98aee604d1be36d79957c12bf9b", "0", "d4beaea1af84cfbf64687c38b569e1f127ba5e7ddd26e174f097ee6edfaec101ae0eee8e491b", "1", "48bd195abb2e318d6feeff4edd378492b377881cbdc941d07262bb981346f8db5e655f04afe7", "4", "37c5db0f79bf00355e87e3f6e4e124a39ec5f77737c297a1bf4ff0d5d0ea0e3182475fd6f0cd", "fc7d2bc1b5e3fcf98f0b7db74aa7d19c90f73ce8872aa474a63cde4c292731373bd3c50ff925"]),
(306, ["2e81b0363182652c3adb5550c186d0ebe216d4596884e746860bfcaa583b962aba3f28fa25133", "0", "6b94f1f9792451579266620e16cfffed9d1b7b18a2129a3d995e0ee0491a3042229a0fe7c3b3", "1", "ba06c0d8c60994b0eb6d5543061b43af885b5165a2139d1a182ff2a960ee58aae8fca3e8944d", "4", "1826f5c86dbc262b3e0cbc1b5c74be522886285affbaa79fe0533ebf44fdf17f3d88d21a34bec", "25ec3665c16858ce4e6443250cc7f068503be094f76524b0afcadd9604770daef37ec7bf54c41"]),
(307, ["6f616d92f34d0c41dc9915643d0bb2b6ef5613da08a6a6bbddfba25b3fb6554b99be69fcc14d3", "0", "65b2a8792821d1a2011bcaa40ea29bb7333bcab40972f3100cd9b51807059b31be1296f376bfd", "1", "1bd85b64bcd34310772645590f42ecadbbd584f68229a9aef77ee896cfed9552e66f9a7f30535", "4", "50ace3c90810fc733c81f4cd86b71181792729cdc8d4447b4ebb808d735e9af90ab426bf1cab7", "518f888a512f9f5f8cda560bf9b213225ce06faf78ef39dce435e1b3f7cc0ca6fe0516cf452ef"]),
(319, ["7345b225c22280a7809fb000e8f2f97be75adfc94fdbcea762add2bc1fe9ab9ed1c085c2eeb145ab", "0", "54d29127928e1eb78898c659a4aa3ad48caebdcc00adbd62599e31218cd0768a04e74233cb5de4f5", "1", "1cd16c897088a029e027ec003a3cbe5ef9d6b7f253f6f3a9d8ab74af07fa6ae7b4702170bbac516b", "4", "a8c78db077686c5a6e033ed9dad31d3bb9f0ec2bc8fbcf5c327cfddc896d325bd6adfa586c0cc3d", "58b24943ee7de4cd847af9c5c05aba577feb9028f612416988bb281e9a0c0805a68708b7c9124a8a"]),
(320, ["da1eb4985e77baf9596b35ca4c3f2a5783b07cbc5ca3bfebc9939c0532477b570caf61f4c27089eb", "0", "119b17bb3149b777ac6d8de3fcb8cbeb81bb7d654089d4c19a9d7d127884570e28f40fe202bdbfb2", "1", "3687ad26179deebe565acd72930fca95e0ec1f2f1728effaf264e7014c91ded5c32bd87d309c227b", "4", "ba8879db0c273e7eb8de60d9b8480a74a048c58db0b679f2ad042d596f9632b4bcdbeae3401139fd", "371274accc42e97644302fba4d6033ca7b4fae0de3df1c39db6fdd3470555a3ca28914bc63975b80"]),
(321, ["1db6e37105bf03db470a230d45995a1776a379868811726533eed2a2ffeded87252d12c4f7ae6a9e3", "0", "12ab048699c4ef3ecc77ca4c04a9204156c96839737c3450f8a79cb9d8581221a418d910638a2c582", "2", "76db8dc416fc0f6d1c288c351665685dda8de61a2045c994cfbb4a8bffb7b61c94b44b13deb9aa79", "4", "18a2262ae6243999e9a023e920e8ca539bef9c0bbd9d78d4794d053341898331f84113c93251d5b8c", "b31ef0e0d915ff1b8f7231c54049f77a5ddb3e1ba299791da4151235dd208e2356fa3b5b57163756"]),
(322, ["2cb7d1f4f33302d0550886087f320fc58a9a4e343583531b2937b963717879d6e7f42d6b776cfa82b", "0", "461ca0d18f915b342729545d6669e9759c8e47f15bc7e0907b15fc97dd7d31fbfa551b1110c24748", "3", "b2df47d3cccc0b4154221821fcc83f162a6938d0d60d4c6ca4dee58dc5e1e75b9fd0b5adddb3ea0b", "4", "2189af4a9669368080caf1c492c2e206e5662f999b09b58a5ecbf92674655b430166158d5cbf28033", "12a2e562d99b0a694381a7161c0a125f83cbf3a075ed08117d054a0131682e56460183556ed0c22ae"]),
(323, ["7a04b9a6deac9f819505052e13084324e667d7708887841840eaa62e3498d8e78e612fe49d8ce6b8b", "0", "50271b26cf2d9d228046da4380f56e4fa188cb7076919b5926ce07de6608ba07febf1c56abc151c5", "3", "1e812e69b7ab27e06541414b84c210c93999f5dc2221e106103aa98b8d263639e3984bf9276339ae3", "4", "44f1b8f377c94515b7093678680c87553cb10e62243f7e5015c9509b66b3ed5dc3a627c6d7863f070", "29f16a630c2a501928c0449d735a83c61600e5efe2e0f1534427cdd44d73e701f2119f236b869276c"]),
(335, ["41f3f6092c335e7dea9348be9d6af5dbd4d138b295921fbc03cc5e0f908260c54a9b09991d84a7719e13", "0", "1549e025a9792ce1302cc2cafe79cf1143271dde2460711228bebbb54d0fad1cdf5cd85dcf8e17052be8", "2", "107cfd824b0cd79f7aa4d22fa75abd76f5344e2ca56487ef00f31783e420983152a6c266476129dc6785", "4", "19d054d33b9cc8b580023d3687e8a87452f5dac551c26df3fc0e384b605e67bc1f81df28571e42c4d5d5", "1eb024349e7a1f806adeb987b497f6bda9002ce2e99cb03254cfb2a4d168f149e993adb5cc3033d4d80"]),
(336, ["fa1d4731e9d9e6465b55f2deab1e08894eeb272c1c27eb9e57b05e1d2515481c5d12ea7495c5f56f0553", "0", "6795f2063f6202c68ce22d10c1ea49ad4b2b8e6933a655dfed316808d2ca4b974d89d28080ce3410e54a", "4", "3e8751cc7a76799196d57cb7aac7822253bac9cb0709fae795ec1787494552071744ba9d25717d5bc155", "4", "78cd69b26fb65afa577b85f00ee79b434b74512ebb72a17c168e0d83c74911b1e0a7a4a86d0c5f7dde2a", "51de80c2c24323ea14eddb5c0894e1d0d9659ca89f608c2f40cd983f1b67b9065cfad71bc2e7677cfe40"]),
(337, ["123a49a42f1ae0469326953a504774361176da5fda98272b1fa385920aa3aeda69a99994426a1b8e6054b", "0", "ecf0ed0393d04323984b3a06b6b3ac7a6062c15a1fd44c1fb4c5577cebeebb9f4122a0eb4b239b653775", "4", "48e92690bc6b811a4c9a54e9411dd0d845db697f6a609cac7e8e16482a8ebb69a6a6665109a86e398153", "4", "ca953f390e0170fa5e58012c918c52deb6cb7642fe5638a72ebcd7f5ea472aa4a21c24e454bf06fa3d49", "558d0cdfa1691075d47e749eb30d1e44ec6b4863b2beebcf25bb3225c68145ef1427300476c34d77b242"]),
(338, ["201d72142e441aabd1136efa58b195166b9c5c08085c1f7e1c3212286dc0875ac8a1fe27047522478f16b", "0", "8bacf024f4f63b520f23e636e5e54cefdc469526b6998a01a56c6988d75f1c6f6255c17480ee342e28b9", "4", "8075c850b9106aaf444dbbe962c65459ae71702021707df870c848a1b7021d6b2287f89c11d4891e3c5b", "4", "2b523c2c51ae36ca1c5aa67c99c8c2940eab0956c8d1749c63c7dd904d9766fa0051d7379bc0263ec0d5", "b4992725ac0704fabe4bbe02d298f7b0875c564dcb93fbf31ead7eea7483cda90fd211e9763a79639553"]),
(339, ["671f9484cad1a489190ade01802603fb9bd7e3821f11266e4648344d617560f8d7201539ad979c547ec23", "0", "63cba810061e18b4776c8b98e9eaf5fed9ca90a6c48bc32bbf6f1c1772ff87ec2d8faa1d5da3a394bd6a7", "4", "19c7e52132b469224642b780600980fee6f5f8e087c4499b91920d13585d583e35c8054e6b65e7151fb09", "4", "518f79e92bbb978994d88058ce12c723e518910d68e12df3ffb065fb2f7bd98377ada0b4b180b07188950", "2af5cd59e30e3afc3cc2b4a827ea108b75934c7917b248caa02fac8a882049b7bbe107c1885a38b273110"]),
(351, ["7c1a2f60ce407d29e186bbbbddb158a1d01a0d350324675d35219b9049073636f1ea2cad7135063f80b8712b", "0", "21895cc7858dc6a5b7e15e269e50fae4aee38a92834af22f5a494ae4ed77e48827c5671986b030697c91cdd0", "1", "1f068bd833901f4a7861aeeef76c56287406834d40c919d74d4866e41241cd8dbc7a8b2b5c4d418fe02e1c4b", "4", "641fb35e5d6c14f379375070837d368435d2cc7ca32597c3d14741115064cfb52fe1b539c1235b93e484d58d", "3b2bafdbc41c979d84aeb4a202dfa6a91dc686c0b529874228aff646dfece7b475972a8ecb947d7cd47b3ced"]),
(352, ["ea302a6bff01cd9fa33ab83434d2dae450d8fbffd827b9888a1e69146f807b6d11c04fd24ce7a965da12b46b", "0", "12b60de4439f1cd8195d61fd71008c70535cff6356eab222eb5e1030a0b5fa1e3157d41355f50fabc9d37364", "4", "3a8c0a9affc07367e8ceae0d0d34b6b914363efff609ee6222879a451be01edb447013f49339ea597684ad1b", "4", "8598e8bff409498b3c0474af4416a88a602b0a36ec12d0669a0ad3d573fb6a2eb6eb7811b0d31cc8bade5ce", "a549b3120d0183ac978ee17cd419784abd8ab5521f924e98ac4188783a99d86882415b1adf62047da148fc3a"]),
(353, ["1a2f3e14177f8b0fd3a20481a89087c380ac23bc5ad7b4d419917d199571fc5821793c1ed08fb39f0057e289b", "0", "1060ec65a0c43d5849621e9128f206b497136130515dc78c2a329f91835179ad600ed65a12178789d43814abc", "1", "68bcf8505dfe2c3f4e881206a2421f0e02b08ef16b5ed3506645f46655c7f16085e4f07b423ece7c015f8a27", "4", "145207cdd3c8cd819e098c04c346bb14fa2cc635f98ba691dc090beccf87ad180923a5fe7b54a1af740ca054c", "10b19db808722cbf81d4814baa4ed1cc247d101f1a13bc51bd8a346098b931b954c7c193ed28cbc6f07b9f0"]),
(354, ["319206e64e0e45d9cae4efd921a52f0f09a1eb9b0270d54ea3823c505c8a38ec70b8611b56e118a882a2d1f1b", "0", "18983ec0f22616c3a12525c03b6aabecf6dcc64478c688cb854d8d41469ac4718f8713b4ca15b89d27591a6a5", "9", "c6481b99383917672b93bf648694bc3c2687ae6c09c3553a8e08f1417228e3b1c2e1846d5b8462a20a8b47c7", "4", "1c55dae5fdb3d506492dc2a69d985f801f41f9a9d4b8d4b8286b545d4be52237f9c38849ee4d2f57a2e6b63ca", "fb8fe663796c0bc394ef3ddf3da7d277007dde3cc709a4570370bc0dd670b5b7ec03071cf2ba2b8cb7d0b463"]),
(355, ["50698c73e54c31162fe66dae129d8b5684030081cb2aff92e88f19edd56b4206ad777f6f55bd261e2b217cd2b", "0", "392a4a43024151d2f0ae7dba39d130fab2e9996ed29c52de01d5387f2116ad447c0712345de1c80724f62a875", "2", "141a631cf9530c458bf99b6b84a762d5a100c02072cabfe4ba23c67b755ad081ab5ddfdbd56f49878ac85f34b", "4", "9b7b7bb52b78158e3a2c1a9afb701aad07e38c6be620a945262d2483cffc42f34063eab940f370c2340d8406", "482cebbf44c40fd4269b1d1f86868a433c5d4ba559d3b2c7b7c50da4b76e128d76546111d10e28a28de711469"]),
(367, ["551741bbc73b4cb36ae51009683f1681a214f007a9f744f39d0f4b80e114326b520b442302e4f5b6013c203cbcdb", "0", "4e314c73f5be292ba50604500cb49993c8e62efff5aa37a6f0612b3bc9bc424a9485297cdbc28de64d413a0d63a7", "1", "1545d06ef1ced32cdab944025a0fc5a068853c01ea7dd13ce743d2e038450c9ad482d108c0b93d6d804f080f2f37", "4", "1b7c9640c9e16f216cb75789f7b39e228b4672e2c95534658fe64b9f1839d3926096f2be5c2892326fda573d76d1", "4d544077aa6bb2fb7e875cd385d2f83025decf5fad31fa6f6c84bd40595328cab6ae699d4110e54b24a67fed6b49"]),
(368, ["dd06b6cf6f67e08acd08bf68b456dc9e68b344f336eda2296d17a08dae8a828450c4101deb3541eb96edf06d6823", "0", "27476e20dba02b9ee3c9868d9868f6e5144a7b38ce77458ffc6fcad192f246ed240f1eadc2a2fa939dcfdab6943e", "3", "3741adb3dbd9f822b3422fda2d15b7279a2cd13ccdbb688a5b45e8236ba2a0a1143104077acd507ae5bb7c1b5a09", "4", "15440b914cc29cfd02d6843b172d13524d60b30ce823825bac959fd089669637c212f5d15f1c16c15c01faf2fac6", "c6036afe70e2cf08d4ac21617684bea651b75a03af82ae9cdc192126c2c011d5a22b9fb3e20e2807c25bdf1e65d2"]),
(369, ["126035ba084c23d749f1e32a989a819a924764fc73f134d8a5183a47f391298ea7bd97268bbb1439fec3661c1443b", "0", "bc201070c934ee4fd68683b7bfbceed196ace11b380c55c7cec721afdfb121d930752083ef479475c3b0dc7f4c20", "4", "4980d6e821308f5d27c78caa626a066a491d93f1cfc4d3629460e91fce44a63a9ef65c9a2eec50e7fb0d9870510f", "4", "245a4e93a4477044747614005430863a3c9979c61dbc8cad9e8c5b7f1d24b54b7d96a40ab7a4d69639908cbcfc35", "44216a6d32818159b4a93bef8d13f34ec2cee591732cc773e61cc7676ea5c9fc0905acbee1395983fffdfecad47b"]),
(370, ["382f4e18de863c5357aeeee936e1049ad42684914e317bcfd4fb3df5f2a4ffc62946d245a4f0dffed5181d4e2e0e3", "0", "4c7b8b8071e00e7a55e58996b5e0c8d83b84049563f8966f5f84f74c8bcb68368fd31bf4b24b6a42c1fe6b2c9714", "1", "e0bd38637a18f14d5ebbbba4db84126b509a124538c5ef3f53ecf7d7ca93ff18a51b491693c37ffb54607538b839", "4", "f80985bc350e4ffe630f83a217948211d24fb6ec3ed5166ecf0865cd4ff1b0c08fc2918e50bd5472e3ffbf291577", "1d6f04d14455fb99b85106a688e46f98576106d3d2d2ab8fbc8a9714b91fa0cebf23efd784eb8a096bcefb92e4ce7"]),
(371, ["41147515322b7b0e1e8eee2c8bb9731a0f25f876a6d37c08a90bfc9fff9e3d0b7a9d256d4faf9b3ea4b007b960e3b", "0", "39f89a710eb449cb75f21c1ca9849c2a52da9a6ede12a7077c95dcf1a47e98e13aa49c87a0c692d53110162c750fd", "2", "10451d454c8adec387a3bb8b22ee5cc683c97e1da9b4df022a42ff27ffe78f42dea7495b53ebe6cfa92c01ee5838f", "4", "17fe346a8eaf9c6e602de817822fce9aa6d108b9154b1f984ad17b53aca0bd5397c1299a5a7023512b57c0aef19ac", "13257998ba02a1be5a799d4deda399528cf6609aafa492fb0ede524162c8b6b796bc09cc9733d21b9ad968b0144c"]),
(383, ["6a814c5e2d83c02fd357b31ed131f0275afd18df11daf05fab2016c50e53b44344522e6d50d86a14ad5af7b1ecc84c1b", "0", "4e1948224ad785bc1e48640b7709cdff24778542f9ed3953dcfdb0453d49e4c0782520d55aaeb622579f746c03480b97", "5", "1aa053178b60f00bf4d5ecc7b44c7c09d6bf4637c476bc17eac805b14394ed10d1148b9b54361a852b56bdec7b321307", "4", "ba3dad2d91986edaead955f974933bd7a0043f4b4fa67889af389a5d3df75f10a06b00b64fab53fcb112c7fc333cd5c", "1c7613dd8e963b6846388d26384ac1dbce19d3ec4fe9dce896efa9efe4247862e87f26c09a4d3da1e183421b2d43b91c"]),
(384, ["82727e4396655b3e84b9f8f0763d85d967016d3270a05fdf4ea6103f032d9077498f6e95273cfab0a0399fd32552157b", "0", "52f8bd3c97be47afdcb5596cce0ccad40e10f1006ce4ce93f9965a1e56c8351b4753fad5a06dc9a04ddd33d7a1c874cb", "1", "209c9f90e59956cfa12e7e3c1d8f617659c05b4c9c2817f7d3a9840fc0cb641dd263dba549cf3eac280e67f4c954855f", "4", "4bcbccd90a4f0a52d68b58ca9abf9a293b130a4236a066812cd3582b59a71ab577581e218addeeed66e083db6996b712", "6face71f03d05447e4cde7fd52a66da665ab3e2444852448cfd438a27f016d186613b943426f0bf0fbac07d38d06ab14"]),
(385, ["1270225a36dad6201fbd6f418581327ac1cf2c98151d5e6cd686f3cb2a1a7aa0991d1315bec7fcfab1a8a7a03e2dc9b03", "0", "a9c0042485a3a4b87c8226384d3d3430c6d39d344f1ad0a30978471110ddead4de25c829e1229d29d6bedc9a46ebe116", "4", "49c08968db6b58807ef5bd061604c9eb073cb260547579b35a1bcf2ca869ea8264744c56fb1ff3eac6a29e80f8b726c1", "4", "1129b6655df99926e5d9f71beb26eff14f6fb8d6ec536e3dffe77a1dc4e4b4314fca1da7d363cd16d75009f691f8e3cd", "74930e01560b7c531e921e1a9952d4e479115ac4c95444ac119cdc67d225deeea6fbfa6f43af47b33c125416ced112a3"]),
(386, ["20c520bc1ed73d7e7dd8e9fd3ec24f0785508740de4440024af624ee56c1e752685e4c291bfc9ad0d80261a57a9441e6b", "0", "1b4a80d2c3cce77335a01b0303fbe050c5878ae7bfe28e75851332f9df7bed96b940e4c3f8d512c72046b1ff41a4fa923", "1", "831482f07b5cf5f9f763a7f4fb093c1e15421d03791100092bd893b95b079d49a17930a46ff26b4360098695ea51079b", "4", "379ebf97da3ec12a44f3f73c1b638b0aea5b41666c843e04675d13a56ad9f9f3ac76fcadead263b3a60f2574b6129ff", "15efd0e8252d5743a8a05d04f8487ea5a284ae27f7011f16a47b3535d88552052d966e6ec2fce00a36dad28490bf8613f"]),
(387, ["5fb48646aa6fcf4c863a08492fb6d5032c60d5ae204b977c8f56c78e7d4f6107a389ee028dc1612ea9e13215ee0825283", "0", "4d86b3122bae39317602adcd81cd8b963ffa32ca2b5b9067f15a0f0890b76715bdda0a83aa8c419bf90ef76ba3e9b6032", "8", "17ed2191aa9bf3d3218e82124bedb540cb18356b8812e5df23d5b1e39f53d841e8e27b80a370584baa784c857b82094a1", "4", "4bf99eea1c2f323c8dc1375a235a293cb1d7be575fc4b5466d6d6bd2f9b8e65641fd97cce23f53b26c30af3321f1c880c", "26f3575378477fadca2383274f7612d32ecb969e77317e17efffee4119b4be0ee4cd991b85b5eeb249a8096e76c9cafae"]),
(399, ["4cf431dd8cbf5a4392a82b6e3705bb2e0aa9fd75fd5e7cc6d884d8c296388e012834b2ae49b19604a3307c3b86c5622e4243", "0", "4b0ab4d8e35fedde445f6c561b1041ff2c0de36e0d7e84c0ae5a76b32ee77ae49f895e7bdca2f4fa843e6cf049fa08ce09a4", "1", "133d0c77632fd690e4aa0adb8dc16ecb82aa7f5d7f579f31b6213630a58e23804a0d2cab926c658128cc1f0ee1b1588b9091", "4", "4cb511c2423ac0daeddfc087cfc330ca710286491334ad49e8539d0a7528da62ba3656fa22f4514da69cfcf3aaea1d08aadd", "463f5fb45e65eeace9cfce2a555942dd21fc98ebcbdec89e67f44c597b825986c126c3a28860071aa64f1903c77a88587817"]),
(400, ["84e0ec0683278b901defa1e31ab97347fbdfd2aa81d39a257cf700789f6e63a0eaff28fbf5d118cdc33dae4bb5eb02ed833b", "0", "1deb44e6a49bec3cbf57885c3986b7196a44b24dad6af412339369ef434521c42e1796f16bb32d44a51061037e2e9b3e8424", "1", "21383b01a0c9e2e4077be878c6ae5cd1fef7f4aaa074e6895f3dc01e27db98e83abfca3efd74463370cf6b92ed7ac0bb60cf", "4", "362f92bb81ec689010666262adba20575859d59d0b152c25244fc96b0724960d3d9556ca7afd8df10b420c61a176cd875e8d", "7bf460b8416faefc1ef2ddff76d4c42b2e02848701a3dbc5586a7d099a98265643eac7573d8ed84640a1d295456d755cf3e0"]),
(401, ["1070cfb5789cf6f6a8ecf863634d14f5606ca4a71ffa239c8d8418241a5542cab0c1a677e59b99174b3f1634d5f069b95c493", "0", "80f60bf4ddd42dd7ea8569593ead0c874176bb8eb896e2ce91b3ecffc900b1e4334ab75fe69051b3ccc3c53e80a311411c31", "a", "41c33ed5e273dbdaa3b3e18d8d3453d581b2929c7fe88e723610609069550b2ac30699df966e645d2cfc58d357c1a6e57125", "4", "d1f9bac9df8b8be50de82601f66ca08344514b80b516cdfc8d7dc9e607bdb8818ea5023edcd72d66f68e7046fdcc16cf0707", "1a81f1e6c0eb6ea7e032947ec7dcab048324749b1755658692b4d8cc8338b6a5a47d98a9908a77df2e214ef08cd2054c7233"]),
(402, ["3ac7e57707c7096b9956579c8abad055bb6ca62330413a49c1a15cc46f3984a5bc366c7e771b122daf20d12e25054a095e273", "0", "cefa37cafd326195a39f8a1d2b742b952b09df833510c78c16a58a51b4d4427b763422c5505c77890a9fe37f296ce531689c", "3", "eb1f95dc1f1c25ae65595e722aeb4156edb2988cc104e92706857311bce61296f0d9b1f9dc6c48b6bc8344b894152825789d", "4", "15d57b999e6b1fdc589a91e8c4cc7b887d72020bab0b1e3a20d64b97d89e6608d491ccb05de6e5173d3b2b80b77eff39b9c37", "2be638c034f3c5fa4c532bb05d9fab81ca809e969c9578c78b24695056de72346b406c28a3966722f3ea64b64890ca1c2894"]),
(403, ["74c9651c7c0f4314d46a7b55010ea93258e1389dd673233adeb18171ef066b494cd06c281a2003045917fa6dc245116ffbc63", "0", "1fa974ba511e9bbe404c5b54ac62f10e90b5d66bc9adc55359f2b927a39c517dd7c406953ca0a3d32d78494fcf3cb1de148bf", "1", "1d3259471f03d0c5351a9ed54043aa4c96384e27759cc8ceb7ac605c7bc19ad253341b0a068800c11645fe9b7091445bfef19", "4", "27dabe076d3948ddf8ad57b7d87ff168865dabde2178827a5e5d89950431284a25dc6d97da9968878a9837a2b8b2c4bdade0f", "289ddeaf4cf5fc54f888510276d667d56b0fcf380b3dea7d93f077e5cb6b0970396566a09f8729f894c7142e2f4a4dd69cd1e"]),
(415, ["6e34454f8b433b666c8b1bc246037610e2db2a177ef450fefc86e18e1156ba95f7ac7d08c5563296a4c22353139b869709de1e8b", "0", "54dbd07e745151b2eb34a257ad4b12d067f1ef2610f3b0354d44f7442f840a04bcd86711f0c1d7579a4f1e99e65befbc3c986db7", "1", "1b8d1153e2d0ced99b22c6f09180dd8438b6ca85dfbd143fbf21b8638455aea57deb1f4231558ca5a93088d4c4e6e1a5c27787a3", "4", "1a4882f533d8c9fc8066ac68d4769b1fcfdc6883aa530f980fe20e56ea9050b54a5f7e14a323f53c70eb32c29b42ddacd4ca3088", "688af2367d71ecd8a549df126aa4577eae5bec864107fb6323a4ff054283554d1a488366f770decedbec29f25c606ebf8df12c8a"]),
(416, ["9794d0ec562ac6c57c59d544d39246b8e1b3ef1290f46de0dad304360998b37812ebf02bd5081f5b89944eff544b06525b093483", "0", "871eea156b007bc3c1c52b61a5699f03c1f539cb8e758c8ce8bfea6c9ddbcd56a98caca1a8ed916a9f987cc6c22e2baf4a70c81d", "2", "25e5343b158ab1b15f16755134e491ae386cfbc4a43d1b7836b4c10d82662cde04bafc0af54207d6e26513bfd512c19496c24d21", "4", "71bc96d098b4df1382ad9f87d933175724f31ecd71195280440a03762f5dd0c71601a4f5078ec3c39c5a961fe8114d1ea916d232", "57623e54e7dc65f98b73022beec276fa3e764536dbfcbc423cf6eabbd6cc3832d6d87330c203b92ba5de5ee1f6a9aa066da3ed7"]),
(417, ["11464908cc8f4d6caaf273293f9388e1d03f8ab61a148c12ab8ef1d258eeb0c4bfc037b4d2723742b2cc7525f32a60bcf50b2fefb", "0", "c493fdd2eb3f400bfe20ffa639cd826db133e38cb7c201b5c9e6f4594ca4f658afc2b48e9b5352ff27cabbf92d73e05d01192cee", "f", "45192423323d35b2abc9cca4fe4e238740fe2ad86852304aae3bc74963bac312ff00ded349c8dd0acb31d497cca982f3d42cbfbf", "4", "26ab7bec4fe13422aecd9f74ea631de05d4fd3184931fcddf8bbf4795f79169ac66771a90245799ff4f9a2f6d9bd44053b2f4cf8", "2e2c448c37ec3a8d7d7cd6c96af69ffd91069662a1bbce7e10b8a1cd68b88ff8d717440f086a1cd181fe7168d9caddd2506907a2"]),
(418, ["2c8cb9a3efcee006eadce76e347e8de710f557ab12e1a43495eb4e6898bd9b3edf722c96e0af9305f90a0189674b04a0fcdd35d2b", "0", "78e5f7db1cc0eb6874c0b70e2a600f368d16a6280a3fba4fd982ed9dfa362d899524ba5cbe3ab8653aa60c23808c2da8414e0e8b", "3", "b232e68fbf3b801bab739db8d1fa379c43d55eac4b8690d257ad39a262f66cfb7dc8b25b82be4c17e42806259d2c1283f374d74b", "4", "2c6a90f1d9c54bd97e6413551e76eac15390b0b7d2b53a41b34664f5c4159ff35e5738a7063030d9dcb62629895b11c2a079c9caf", "26318c1712d6dc6c70302187fab0e7096c642f2dce1d8c9df65f6c759754cf7b014124bf58641feba217a425d19e0607cd8f37c8a"]),
(419, ["5e52fe536d2439a9e13a34def1cb899b5d4219c19430e0e89e8cdfa912eb4deb149d3498d3ab2cfae4d5d892c748b30bedf8a7463", "0", "240f530733443767d172adda00b2cf02cdb3c1ca39cbe49ddfec3d64dee8ba6aeba1b1a31e8900703dff52cbefbc8d1e96aeeb0d2", "1", "1794bf94db490e6a784e8d37bc72e266d7508670650c383a27a337ea44bad37ac5274d2634eacb3eb9357624b1d22cc2fb7e29d19", "4", "44822f599ddea0fb12f985d7d54c3d0f3f28957bc1a2d318962de49ef5802b9847fe246df2729ba6fa3a883924c019c8540cb556d", "40ae251e119b86a0cb8f9d7dfd6e753bac65ee8035c77dcefaf401b8f7f285c24f9635c73b16088260f94be55cdef7f20129209fb"]),
(431, ["71dc079184b002cd817e6a1fb82099ba7a1e25ca2740049f7cb1655680304e3e23db6bc7744a419dcfd9463fda7165653850a6b1bc23", "0", "6b2628e93a0d2c4ddb24339648423a60abe557720c979fefdb6cb7217ac9980eb97995f0d200c2ae2dec1bdb6a5aab4ad30b334d28bf", "1", "1c7701e4612c00b3605f9a87ee08266e9e87897289d00127df2c5955a00c138f88f6daf1dd12906773f6518ff69c59594e1429ac6f09", "4", "2bf9447c6cd0535be3f44732291f8a34db9ada94cc1e0f283b51c42d757cbf0fd318124a3dc2debf3db75fd27c112b103f972409fc18", "1ebc6f97b5a2bc7f1219b91da6c879026d0d6501289bc0cad1e5906dcc1763abef984cfb312c60179e02da1be9cf48733d105fdd848f"]),
(432, ["a21620439a774e6cdbc508cb65f28934d6b25a0a7baabe0db786a960697fc575c58746d517b0f97aa8a20bd2966ef5f87090a0e3eb63", "0", "49aef4cc6f7183f29ba3c05c07ababae9aa5c0b27448c178f8128083f530c268097ae564a56d1fa5dc7d598d116177398d9dbc73322f", "5", "28858810e69dd39b36f14232d97ca24d35ac96829eeaaf836de1aa581a5ff15d7161d1b545ec3e5eaa2882f4a59bbd7e1c242838fad9", "4", "7480b8c917daedb1bbcb06150ea4bb62362c7f8cb45eccde172c7711e187527c008be01ac46480a188e041cceaaf1dfde4ec895f841a", "8129061f5e00e6d5271a56b27562a9b1876ae5b9ff208879bcd3e45a9f8096297410bda873899936d6636e24287100f031f55c76efb4"]),
(433, ["1a0e67eebfbef104c362f1e99180b322ed94353cb64aec4d30ebbfa1251d32d4dd99adbd7dfa94d6d88402b345a44c8d105e61b1f367b", "0", "1547412e2c37f80e2648b2065b15e39673da67ac18ac2bea741b5739391acc3edbb29a12aca65804ec01bf5f59a8bab814fbd78c6a167", "6", "68399fbafefbc4130d8bc7a64602cc8bb650d4f2d92bb134c3aefe849474cb537666b6f5f7ea535b62100acd16913234417986c7cd9f", "4", "3e0aa1e9a2fd9a85ff784bc6ce7f1762ffe3275a83c12138b498a3b001712ed321fea9fad606020a9b64c78346383216f6531230d109", "13d00853785e60c6cf8f3f99115a021779be889f4a883139d3d37d599e65b19e2510abd9cb0b8a9f800e0ba4b7a69b3f48878820dc8da"]),
(434, ["2e1928047eaeb28cb47c4ca0bb22c470b927794706e74068d3741154d9cc30cba3d69254c7fc762bede96d97bcbee7de60c3672dac4b3", "0", "2c03cba391ca4194d9abf334302eefd55ff9ade9028cf896101572b12ef468c9508f0a9b521bf69bc8871f1ece910c3786dd7793c0513", "1", "b864a011fabaca32d1f13282ec8b11c2e49de51c1b9d01a34dd045536730c32e8f5a49531ff1d8afb7a5b65ef2fb9f79830d9cb6b12d", "4", "23ad488cc6ad2efb2c1c7860bfc15655092d5f433b0ccddf95ab546fcdb66dfcd75a2838515f16d0c08fae14d7d84e3274a7e4b6f64d2", "232d023ca398aff1f1d31972379108632e2c579b0d0a786aa4f4b06c695538dde2848f43269a5c11bf25e89e29df3cd129bb15b667472"]),
(435, ["73083e14641c39dac5b0d266de09bc0c5e84b2a0e2cc353baf7e6f732d85964928e668324d505557e1d69a88ca2be16e73317e95b1afb", "0", "4c029ee3785e496a978db4b46f55336779e1c74e5f8b1a7b3f5a2afd86766f2ca04be792f9f7cfda403668ec47c65078f59078c1d76e4", "2", "1cc20f8519070e76b16c3499b7826f0317a12ca838b30d4eebdf9bdccb6165924a399a0c93541555f875a6a2328af85b9ccc5fa56c6bf", "4", "68860070bd1a21dff7f3a45e5b04aed3e5e96237b36ac361919484da59694e85a4dd92c087a5dd4c949eaa1c2e61f0ce5dfdb4ce0560c", "497235fc0b1f83d0d69f4330e487f40c578d3a0351197cb9d0a0225e419315cf217113331b7d855a735b9bc81a2deb7f3119ad5b24132"]),
(447, ["4fc9534357f74e5af4e135aa3e7409687c93faab82e42d1fcf7103315e4a5789ddf68460a18dc1aa5bf9090657da08f11aaa3acaeb0019f3", "0", "34e648b2eefb357d11fe8378e28bf503081448d660763b43fce41c5e4bded321178e8ebb3c08ce83fda52684075d5d51561dad621d484599", "1", "13f254d0d5fdd396bd384d6a8f9d025a1f24feaae0b90b47f3dc40cc579295e2777da1182863706a96fe424195f6823c46aa8eb2bac0067d", "4", "6796be209191011911552bfb57d87a3c0ed6dc371582cc2c7c7eb18fa92adfa336bde3dcb8f2d959f27f99a15cd1277a1f86c2c6385713", "157db9660fd8c8e663eccd2a1e433e99776eee3ec69f97760ba8e7273e6179cefa801304e335180ea8f5d490aa71a534dac17576678cd0d0"]),
(448, ["b79f9e9f8c2c4fbb78cded54dbbef08be5111aa2d67b084d6f8b1009844ccaf9ec717b18c595b4fbc31222b5f68bcb0957c81c87261e9a63", "0", "81f742348759903c73b1215232a32fc2169c31cecfccec16d1c828e6037b07d76d058afde038fc63e041ca9f0ac94247462994a61a2b4488", "7", "2de7e7a7e30b13eede337b5536efbc22f94446a8b59ec2135be2c402611332be7b1c5ec631656d3ef0c488ad7da2f2c255f20721c987a699", "4", "8ddb75ca7d16f9c5afda862bce5a03e437b829e9658e0ecddac3ea92be2a636b8ec4807d78ed5c4423180c6af5e6a9de57cd74c9e0483fbb", "479b8fab639b81749f26355943bf931210d0f9d62b9d18c71a727706bb92243ccda7267d1c816405172f533a0d3acb829585e7644bd4a36a"]),
(449, ["1b156df8077b6b3ebfef48ce050bc85dfb4157639c89470ad772cb1abc45ef378470f85556c9d975e5d1c23579f62b63446d0a7ee41dfdd7b", "0", "6bd24a9f37aaff1f77e8d06ac4c69e5010c113f7826a1a97f8d88ec63eacbd5710cd902a2325c5f8e0b73e93f8dc35accd6884cf20167370", "1", "6c55b7e01dedacfaffbd2338142f2177ed055d8e72251c2b5dcb2c6af117bcde11c3e1555b2765d7974708d5e7d8ad8d11b429fb9077f75f", "4", "117efe2305221af16841847e1977d6aef066289c3a9427108f512a94227e58e8282f651a168e0b8c483492a4910d3ea3999554c479869414f", "1048f497d45679b22fdc3ffd17ebd1dd8b4d87d314d659c587b6eeaf6e6e538e14b0fb6d0206f4dafa2caa79d669bb21f7f00359fd1265348"]),
(450, ["2a68004cc526db4ecd15d7f4617b46ed276791f518edc3507aa11545b0d736a7db9c4d0187bda624334367de455dc7e6efdbdec6c7c89595b", "0", "12739e14055888cc9f2f00398dee56cfddfa1ae7e536e5ded4c8730b286eea154b3276cb85f30495d1abb6eae6b138dd2b014f3af77e43f70", "d", "a9a00133149b6d3b34575fd185ed1bb49d9e47d463b70d41ea845516c35cda9f6e7134061ef69890cd0d9f7915771f9bbf6f7b1b1f225657", "4", "5e76e9af50d169871068ce691a29a79d105f765693cacefde155cbafea4c5f446430fc10d2ee320882bc68ea3500c89ef2c24568ae6a0987", "1bd7e4476a2867c918e6731c68b6938dfd726962133579d316f6c65783f1f410117bd542d75ec9f283160f8fe5f538016a44f8b9a8e188b0a"]),
(451, ["55ca32002ee9e5391b45a9f46bb7172e89358ca95f18123923f40da6b306bd09949520c0b5ba478f366e1645d33da5fcaee27b1db81c27253", "0", "367b5aa5db0537bd4ea6e7b1c8175978114c07a2d5ce9cd71567a83be3d9b7ed69ccc72d77a9e740cca34994f98635e86dff79002a057468c", "4", "15728c800bba794e46d16a7d1aedc5cba24d632a57c6048e48fd0369acc1af42652548302d6e91e3cd9b859174cf697f2bb89ec76e0709c95", "4", "23223f45d15a6cb888d243a47e78d85be97555ff58bde7eaab688221f6022e929fa5763f194edb5e9e5fb5f82b2cfd55f2a7f2beb36a67e2", "217efa92afbdb02758cd8496119e85c3fe39900fe194dccc2852d0ea8e9b7ba5738a9dcdc24b529f19097e8f13102738e4a235b81d5df4ed1"]),
(463, ["4e5b97a58d4501a31380be947ade671ea48b301f9f1f2b9cca6c168d77949cd9dedf2c6e2780166bdb0242ed13cd0baa3c2a9d32e4552fe9b94b", "0", "4b09d5cdf0b11e5a9ebbd0597ff6e765add897ef913894fa5de93645ea04720efb82619785912cc70d48d51c1caf924bb27af7b59e625be7ff79", "4", "1396e5e963514068c4e02fa51eb799c7a922cc07e7c7cae7329b05a35de5273677b7cb1b89e0059af6c090bb44f342ea8f0aa74cb9154bfa6e53", "4", "4077a6954cb19e1cc3dac68443251cad0490eab2a5c92f5f0e02ba55e471ca63cd47acaa3ee84145c96be3aa887b22e35222dabf7b155f51bf90", "1a3d97fb082e21ab0298fda53e875942033b98e63c8642f43743b21f6d8eaa7b13c125796127663ed4566c8caf4593bffeb708d9757daeb792a9"]),
(464, ["aca3f070392e5eeb8ff555c060beeeb47b715b6a2701bc272c8a1a75aa759ac4958de03bf062e55f1a5a0cb51043471c9cd23bcb28bc65e481cb", "0", "220f0f3f8264d125499117ca79e947fcdddac1a00cdec4653fdfe63fc34a9ec860b13b1e555e8e4c063bcb6e90f65eaf6f69bc89e140b64fd74b", "1", "2b28fc1c0e4b97bae3fd5570182fbbad1edc56da89c06f09cb22869d6a9d66b12563780efc18b957c696832d4410d1c727348ef2ca2f19792073", "4", "5d42fbe128cfcd7df40e1712341efa5c9ed53959ec706ee8322ae47fb32c123e2ec2c7177d564772beedb30c70fecfbf8b3fbde4df822c68d044", "6fd3aad55aca5f2a4739ec4f30b639afbe8383a0453a2b493a9640501d1c3b7512a47e8dc4b2849f96493f0a18670b127cc690d335761cf79057"]),
(465, ["1e94ec76bc4f1fa8abfb8ddcceccc7750df424698bf6007c22b3c3e9844e94e8507b3ac2945c8638cedce3854641475c6d04a9eb7e6240c15275b", "0", "1426964bbc524acff6adc30de059c9eb6a4d88229ff0eaf403105015022ea1b8a9bd1f82f43eac2d6788e13cb40b6a06e432280bd51e646be0904", "1", "7a53b1daf13c7ea2afee37733b331dd437d091a62fd801f08acf0fa6113a53a141eceb0a517218e33b738e1519051d71b412a7adf989030549d7", "4", "3d1b9fedaa0ec42ecce299e97d7777e731161613918e950d288ff50cfa6efc110d1167332d68e6353a8f0ff6adc61b91645706484a1a8950ffdf", "a83f2df0e4b5a2fa439cdc72da9a73c5897d37fc004d765d28a7cb77035b93010c4ae1b086df8cb405957f117a7b8e4311479eae1275c67217c1"]),
(466, ["2c32b63d3dc51f2377a02e6d49a0be807fa1b935d39f0e124ebdbe2e821bc7e93456523238cd05c193e236f2d711f9a013a3fbedb424c587ee343", "0", "602170c03fe22de68db70f932a0389f643f71367624eb21d83892248709a8bbb05c708682860c42287246dd6c9bf8cbfbb56e8aa1cb1768a24eb", "4", "b0cad8f4f7147c8dde80b9b52682fa01fe86e4d74e7c38493af6f8ba086f1fa4d15948c8e33417064f88dbcb5c47e6804e8fefb6d093161fb8d1", "4", "278cc302dd0b3dfa017a344b73b8a64cbf62c68dcd5c51f73213a435703dcf4c8dae8c5903cd1dc45e2e13d31347214e9e8856d70dc84f0881533", "2546da4c5326ae23f1ca2d00cc2a2c9a1796b102206e25c2daf374d7319f4a46f27052bf3196119101137fdcd5eff479bfba0f14f8e8c8886906d"]),
(467, ["61657df159e3f606e5521b433b463e1d45e97163a2dcaade627516126b9bbba6c9d04c080e4cf3c239afe67721af7ee7b95344fd94f096d5d12d3", "0", "20c87607bd5e864066b2e27da2c4cb6297c6fb606597b932580bc3aaca072b143a05ae6cd4ea100d793466dcd7576b6d7246899f03d50f87dd65d", "1", "18595f7c5678fd81b95486d0ced18f87517a5c58e8b72ab7989d45849ae6eee9b274130203933cf08e6bf99dc86bdfb9ee54d13f653c25b5744b5", "4", "5a7a67e2d91ab9c96319446d99738801f0346596bf18bd6d8375c22ebc9e79bc7d7de29da5536e28ee787af51bf096275319c58304b4d979df08e", "10a77bbb8b8fe6e816ba293bd467c0ba996a0957aa42314984c9c6984cd7478f223697e57fa9e19b7c1b7ce9aa058e158c848ee3379d279f9210e"]),
(479, ["5b9f443c43745e7d6a04131c43482c59e052352defc5d4555d234aff368e1446832bb899b380193d6ad64e2a745ed91ee3521de1781072549992ff6b", "0", "2d96f697a7bc8d81d6461aa6f9a8868fd5fdd895cf871d634ec2d0ae926deed9dedf2846921e15bed612e5d702a37a6b90dd320cc714970a33654b3f", "7", "16e7d10f10dd179f5a8104c710d20b1678148d4b7bf175155748d2bfcda38511a0caee266ce0064f5ab5938a9d17b647b8d487785e041c952664bfdb", "4", "285747420a9d5c815d55e47184c319650623c2c75d118153db61139c7f7885d131bb7d4238b1424cb73cdefd8113771b264d9a059772650f33683aa5", "3c7efecdf99655f995da528d367a52dae9cd9681ea1b6423b27b891f7f761c5fe46180ac2dbd5aea1ca459904e833b057d0f1584e20e2953ac42304"]),
(480, ["e2bd36e4674ad065ce1df70d48674edf654087f0110a7578598b33c5fa30b412f6cd910cbe3bf7b7fb65b83bc5837309a402ff06fa67dae69f72f723", "0", "2c85b27fa224ea79c16752ddb8c4a0211f1d6db03b03b486dcd7bcb734caf4add5d5aa0ffc3ce352eb1611122409dffb06649f7288821aa97e224c1", "6", "38af4db919d2b41973877dc35219d3b7d95021fc04429d5e1662ccf17e8c2d04bdb364432f8efdedfed96e0ef160dcc26900bfc1be99f6b9a7dcbdc9", "4", "7fab18b09ce4adcdb4877a1b5c31054f0e232ee6c7239a80fb18b1bea95ebf539f36899ce90068d5a66c5eb9f3801b475cb478cfa16b3d845a86ac5a", "600543a1498e24e8b8ad31e98b06106ee687bc115ba810f7df939c58e3a124061496158f9f382222388315d65ebc95a8292355c4c78919d02184742"]),
(481, ["15fd44d79b42cbb6d213ac0b982f444a9953f65841d7c890d388c488afe3635c4e29f2aaa00a704f146d32d9fdbaa22d6cae44594b5e66e674d3cda03", "0", "f6c6f689ec995857632a52c1bdbe3677c05bc1e4b451654ae8dfb5bcdee0247c19c4f34f16de4af895cc700d6255aa135a7b0c65193cbe65565e5916", "8", "57f5135e6d0b2edb484eb02e60bd112a654fd961075f22434e231222bf8d8d7138a7caaa8029c13c51b4cb67f6ea88b5b2b911652d799b99d34f3681", "4", "b1de619186b660b9887f3a6a02abbf52dee79fe64dc4dae877e0c591781416f0b609ea601dcca1ab70fbaa6c1aed9181103f78d0d50e9969727cfeab", "19e4a55d674451138395298a3eb67203ec745a79ed67d03b68c9fe8413d07f08a167f7d1d066aae6c9a16dda5767ae6dbd5f70aea6955d0576a4df35"]),
(482, ["3091eecd709381c71a84aae29d3d695c631c36714fd38ca6cfc15e729a7fb7742fb75a22a551aff3d318117780434bf7e7e9d424d263d60537c2d54db", "0", "2e93f2d65e68555b4345acb0f0f754149010a71763624fb16d579caee431a90392226b50b76d53fb0c7cda60c6ea91dc199f51b042482b1abce46696d", "1", "c247bb35c24e071c6a12ab8a74f5a5718c70d9c53f4e329b3f0579ca69feddd0bedd688a9546bfcf4c6045de010d2fdf9fa75093498f5814df0b5537", "4", "264c2dc615fcff37311245ec1c116fc90f7491dbaac3fa72d436797d201fca470d236de48b5508f2cec3a6cbc254a3c4fb71dec0628746cd2f3c681e3", "31df2eb87d41adf0b2f1601cde8b0efacce2149265b8274525ce73b50bf13012a4764aabc48009475c0271beb77d758784ca290cd0154a3976a0d494"]),
(483, ["6439c02ab87312de6d5c5ef8e1bb5dee7b5a63d186b941b343bcb3d285a2af2c1a0a17ad4fb2aeb8592b6b57fcabe508e7a45cfdfaee9a24bfcc598fb", "0", "24aee9710ce9d887f162609b14e528a427dab29ddbde3e3456036f01d640e238339eba4f2c254fede38576a75a04087a0e23aad6c44c4212fee157f14", "2", "190e700aae1cc4b79b5717be386ed77b9ed698f461ae506cd0ef2cf4a168abcb068285eb53ecabae164adad5ff2af94239e9173f7ebba6892ff31663f", "4", "4d00a934fe3973b4852f97fd9d806ce4e20fae755ed00747cf148e2d43f2b206f92a4f85415058d0d8351be2c0ba7b8018fadbd2bce907b2e5f49795f", "2e09beabd07977b0bd83eaa726a6d6c341ca258815133b2857c44396310283e0887cf43d8b93cd85791ff24c2706d32ddef78bcb13a7bc10af8e66454"]),
(495, ["6332b54f689cc3821900c17ec3be58b380135a29cc7494aa1ac5d227a197e8af02a92343362cde77367764abe0c07aced67941950334c1a413d9e79f407b", "0", "1b5e9abeeda0d115c86347a9db5fe1aeea6af925e836d15dda45591fa93097d04afd72398ccc21a0f33001e0a917b95ea2744d83946a4f51198ab7b98263", "3", "18ccad53da2730e08640305fb0ef962ce004d68a731d252a86b17489e865fa2bc0aa48d0cd8b379dcd9dd92af8301eb3b59e506540cd306904f679e7d01f", "4", "6bbe89313b1057827838e9fbe002872cfbc66690185cb91931539b2406a631867b466ab2f07582c91bc8b24faa660b6fdaa351329b0afd79e308163304b", "704191a17576f7ce6cf02df94d23a4c426de3f6a0b633aba2f9f50cda28d65d8aea877ff83f13e67c6d5070cd00d8eceee02299e9258ccd74ecf4c9acdf"]),
(496, ["c97245d8f1b980ca812480a782139e659838812dc807f20af650c6e92bc40728c162192473e766341c2073f4f5561762484b444b462e05b6aaa23e845183", "0", "b1189fe8015240afd4e039625f0036a5fcad8ff3f22137b936a240f92eb419e9856772a640f019f544f8ab7697f5a6a8a856cea1786cd11923f0a6dd3f3", "4", "325c91763c6e6032a0492029e084e799660e204b7201fc82bd9431ba4af101ca305886491cf9d98d07081cfd3d5585d89212d112d18b816daaa88fa11461", "4", "433c9afb34c384ee30394a157ab363528f3a48c37495c442e993b7df85f137ac1783bc4989213b0ded2f8f611f4384da6524efb2e90015d1bbc60dffbdff", "8a43d30301e5c88fc164cd1bed87782f5550a21ce288d9186ee79cdd9a83c3098018f8cfc0dc4972fdba1e60935d860b48fca761cad016bca102cb9e0be7"]),
(497, ["1e4c25084878a9a7ee9a07aca4ca205987e93eebef915223938ef3a192f0a2f202d836d4e25b72faedff6a782136154276dcf6986de79ae5111419d2fbf03", "0", "5f203e6b6c92cdbd8b3c82dc4bff3c420b367679cf9bc0ef53fc510d2b59328b79fb9dd9ce3755926822e5cce77433a44bf7df9d9091eb132d1778e0f620", "2", "7930942121e2a69fba681eb2932881661fa4fbafbe45488e4e3bce864bc28bc80b60db53896dcbebb7fda9e084d85509db73da61b79e6b944450674befc1", "4", "dbd720d2ecc4e735a6ce726d963c0cf9d7cdcd12e289a011be2bf5b7bea2baa9c7003f34ed32f1972074edc6a32b1dea2d6d268066ea55a6dbfa98152a65", "196e0277b8c642e5729b4c5fb8af7e3475c2c46ec929eaffd9f22c530e94a59aa05b4d1910e3cff934c06de138690ebd303506261452b16aa924207ea66eb"]),
(498, ["3a8fa60059ec132695f869b475453a8c1ae89ab7b4acb99c42981318f6d74150f2ffdd3f4f488c7b5d493a88eaafa4e9761754f05ac3224a1628fa21f7e33", "0", "1bfec2f8286156a5735d180bdaf8ff2abadb2468ac909e6aa474abbee3886f0076489dbab6ae605594881b582bab7baf6532084bd596d78dae089f4018434", "2", "ea3e980167b04c9a57e1a6d1d514ea306ba26aded2b2e6710a604c63db5d0543cbff74fd3d2231ed7524ea23aabe93a5d85d53c16b0c892858a3e887df8d", "4", "1bb752866bfc0019f09d52b46d8642facc49c9019d262e3f4670cf92a2edb78095242f2cb764e91cdf99bcec2c354ac0a30f5ca393f6bd0674e8fd24e1880", "3246037caf12e0b70c1c090193dc1028d40024649a776fdfaf0e6cb87bbc9e4f334beadb1abec4f16bd854567636cef44aa36b94f9aaa1ee7b88e796f4d65"]),
(499, ["57572900ba8ded2206c507d18db42ff09a75fb150d87fc94ef637e855248bbbaedd68f023de81dccfa320fc3956f83da234500829a7bba2c00fd801bcff9b", "0", "2357eda2489e5d64dd12885d7029ad3c8381b67345017d2930ec7e9a988b0d4f70c3470a907183e31f379b2cfdbf2c3d85504e4ee6ebc4b16fc89b46649b8", "2", "15d5ca402ea37b4881b141f4636d0bfc269d7ec54361ff253bd8dfa154922eeebb75a3c08f7a07733e8c83f0e55be0f688d14020a69eee8b003f6006f3fe7", "4", "2a1c70adabb4085f28494d56baf3e989904b28b3b9c825d938698df00bd58c56c2d5e5d927b064ac25a8f12bbdbe30b39103ebf57bc9841bec66325f02b4", "3f16b33e28b2cde7f78690080004678c8fdaee3b5315e806b40ceaddb581361bb418c6db4483c82b5377c0a9fc33e13009e5a718ae1a745bd466ea440e9ed"]),
(511, ["572b946e6e060432aaca53960857fc588f7097fb45732a1b8aa3197f4e1aee5b8089f1ba7ec9613bcb19991dcf1c1d1e2e90575c3489155dcb061d9feb6d6113", "0", "2f1d07f31f9e0214bf2e7cdda446db535836a5459938f31684b6571ddf7a377e8cab2a80e2225d282a22c6091d613e80690e39dcc3dad5a4f2a38cc548fc9ff", "3", "15cae51b9b81810caab294e58215ff1623dc25fed15cca86e2a8c65fd386bb96e0227c6e9fb2584ef2c6664773c707478ba415d70d22455772c18767fadb5845", "4", "839f9bf1a94bc49e6ee8bb4edc99648310a7931cb30b50333e9bfb3180288d11bc9c749d7119e742c95c07a861ff5d70d7f451e87523c72e5ab4f60bf48ae83", "1bb8c11f620127a85b17353f9108a026273bb38d9ab1a27c1d576ff24b5cda6e73765c2437826dcf766e8a642b5d9e57e7fa1cd895ee7a26880ebb5123ea3456"]),
(512, ["869f6f7a47c0d70bb33c229408d5005b07bb5715ddda319d32a10b17a41125d0765fc24d155bf154df0916859e7854b5192f1e5df434bcfff62378c84cafa893", "0", "2ea387c10cda837c5679ba64ab9a08c6fdfb3bf10831b20943ed49790907f9bd380943f9a4157b146ac5fb109a1b4293756524e2e23af6745f393133abebd5e7", "2", "21a7dbde91f035c2eccf08a502354016c1eed5c577768c674ca842c5e90449741d97f0934556fc5537c245a1679e152d464bc7977d0d2f3ffd88de32132bea25", "4", "1dd252c99979268c6e1abe5d09af0c90456e38d3453f175f8a6fbda8137b33ad63fb30b85240b80e0917fc8558190a8e4282f11034f244812f5a3b85596e3a52", "4cdaa0fffbbed0f97476fb0c00443d414a7ff7d7417c7ed2f63bbcfae297e8e3af132f3f26d298f3f4547b3b6176724529ed4b0f9cdbc72282a8ea4edd92ad42"]),
(513, ["194419c4ed9b02946bbbdcbe8111c13fbcb75c1432b4c5a530a9839b2a89ad3409fefc2a2aef9d31cca6c0cca584bd63824018004158abe1a3de4e6c539b5d1b3", "0", "140038dfef22547e96fceef42b280e0e47ab70bbac43090fdb2f4ff21554ba081b8ca03fe1d8c7edf446593e993ca3cacf959b490e09bbdbd0cb45c65a7206360", "6", "65106713b66c0a51aeef72fa044704fef2dd7050cad31694c2a60e6caa26b4d027fbf0a8abbe74c7329b03329612f58e090060010562af868f7939b14e6d746d", "4", "136fdb5595082bc18ee202fb24b1ea6da4090b5d4ae329dc44b7c0aa420d0ea7ed47d41cdfcf1cdd2c8548a78b90f962f7d9313697c53dbecf3323724452eeee5", "103d2ee4f2837600c75b0ba919268741fda17d8750a278a3de693f508c2662c0472c53d04229b8cb16fc28b0c58d284de16172c01e9e60374fe9bc8722f4fd66b"]),
(514, ["373a7e550ac2ac01db25ec92d20808f036318900f1552fbfa3f6e5beeb5736a5a09e1aa39de5190d8aa3af91c2e9e5b1653d18c17352588026222bcb3655438ab", "0", "2b0762081e49612a58711f1cae5caee45972bc1be8c476393c76926ee8f844ee168a90903ec58a426a45274e3ebec206b7ab8a81df1693334c7f5c93631bd0efe", "5", "dce9f9542b0ab0076c97b24b482023c0d8c62403c554befe8fdb96fbad5cda9682786a8e779464362a8ebe470ba796c594f46305cd4962009888af2cd9550e2b", "4", "16c445ceefb3975b714ed4b95102f029ebbd2108c16d1f76f228f9b86889eaecbc942acae44d40e992e94d5288a485262ee590e32a74fe68bba97d33fbf8f9292", "f6dd03279791cf523c8319b6527722a02078dba7876c65b1dedc8a5f4d820407a253566a40388812446316235cb39de2085ce1eb9fd581a808c5cf69dd7d99b5"]),
(515, ["55da08446760fab0890c184cc7c759cfc80b19988d3cf67de29e06935626dfeecb582838ffb5a76b50705446abcce38d1f2e174b59443aa3a82371bd44e1f36a3", "0", "4af5187bb78cc0cb5aaaad14d8729a063a3dfad3886a830484f2e87fb8aa337734061eceaa7981979d7d41d1ac943c27fc3ea8352fc3f7df9274504a96d51445f", "1", "1576821119d83eac2243061331f1d673f202c666234f3d9f78a781a4d589b7fbb2d60a0e3fed69dad41c1511aaf338e347cb85d2d6510ea8ea08dc6f51387cda9", "4", "242227d149614427a225e6531532fa41338874b2d6fa7dd10f692359b1210c839773646b56b57a9a9be6decca0dad03837fc8e9b9980ab2378b44063221a06776", "1c7696d2fa1cd196d679a5977dbe3cfb5b2f733a066eb3d9fc86e1b95b63b92b971c54fb25de356e0540daea78b342871ed3d0661c4ed979d5d463f78643404f3"]),
(527, ["75eaa05387b57646cfecbb936ed736c799222714481898d4bf47b760c1b3abf98cea232d4981abdff4394a594c4b2b075da1d52207b65bd47ce558f4410149094a33", "0", "32dc3e50b17f6cf0ae8dfd71f199bbb1a402b3f54591d6358ccca0a942661a2263208e85b5b9e0ad0238485f3ce04de06fab82e351ba996b8a6d6b8c7da1ad23d33", "1", "1d7aa814e1ed5d91b3fb2ee4dbb5cdb1e64889c5120626352fd1edd8306ceafe633a88cb52606af7fd0e52965312cac1d768754881ed96f51f39563d10405242528d", "4", "1e799f5545b145902368352aac0c6a58cd18e5f2c56112df9b8ca25fc7bfd53bcc0f1f07c4c06473daeade4eb7a9fa104fb9cf1c5712ab48faa420981ff27ed086ae", "220ce3ee030745a4d485c7d6bfa817149c3d70e9e5eb37a24854330cc28d077110eb4569fc2a3ce52bc17aed0454efcfb5fbb94636364941580c983898be5cee7d24"]),
(528, ["a7abe87ceb32df6f6819352cfb389fa3e39d69837ef18ce2ebe18786452d2530b9fd25ed46be13b40ac2f415b53721d6531ba943f7deff719922b77443e97b48db43", "0", "854a654b99f46e3c79f1cfb6487ef1040479673bc8372ed8dff4639214eb73a6491f73f4c0fe9433b9e1b55e450a7c604008a235faa38806bf5656bbf46cbe833595", "4", "29eafa1f3accb7dbda064d4b3ece27e8f8e75a60dfbc6338baf861e1914b494c2e7f497b51af84ed02b0bd056d4dc87594c6ea50fdf7bfdc6648addd10fa5ed236d1", "4", "a74db3472f48e2c20a1896230b00c190b2b3346c88e921ff08b2596bf900f3a4d4c4692dedf6e947a8936d7a67a9023adb02730ba0389760ff98ca305cf2fb1c641", "414b3057c24fedada111e6bb1d2c7109ea899a52615a0862e75638c168236abc37df704f73fc0ef09a5902d8fe9587a00d7b267e4860decbaddb37f5a718d0706470"]),
(529, ["15c4511f1b3c2fa9f56f97bb0e39e0731170f90085935ac360307d153db085e5d12a15ff318a75161a023d18d42406cf6d2e7b18b7ed42df5479187b175e29d77acab", "0", "147a2783368feeb59c0fc00b6c81b5f3b81f04d8946580f006b6170f6006b009abd638dce69e7403c2952c683de36106fcecb0d31f1eb453958f3b74702615e267c9", "2", "5711447c6cf0bea7d5be5eec38e781cc45c3e402164d6b0d80c1f454f6c2179744a857fcc629d4586808f46350901b3db4b9ec62dfb50b7d51e461ec5d78a75deb2b", "4", "fef47ea9d2d4e8cceb8d1a89a022adc4d072ffc4e5ce71cb355981522d19d7fb7c2f90734e846edbd4e5a756ab38dc2f7a0fd5c0d0458899bd3ec7f36e0e8139ffb6", "11c9c6f2139e70ad3cc861b86e85e8aeb2524d97fc11c03a335a1495b5e73c83df6a9e5dd23c40addf0afb2cf0e69ba9ceeb6680ef4c384d13e2d296aeeadc079c617"]),
(530, ["2e0b80822e2fba43d75d3f54f6a1783e07b46781e6bed434297319e58a5bb9152bce161d18b5eb563b0f19f966d1ce309c44e9d6b46d246d5a0f1648892ef4f2809fb", "0", "64fd3b0d25544365617b261ca239a484d02fddde6f7b3c549dbe554bf74a8a1680b9d2ec6bd37d04e64587dcf8913825f4434f5c8a1e6e7606287069b91b61f3b174", "5", "b82e0208b8bee90f5d74fd53da85e0f81ed19e079afb50d0a5cc6796296ee454af38587462d7ad58ec3c67e59b4738c27113a75ad1b491b5683c592224bbd3ca027f", "4", "2cbb956cdca49cef7ac482d9c04032be8de074c3a7223a11403d469190cd2aad89886cc1d778231e5b653b5cfdf5a00bc823656681a696f38587f35187387459f0bb1", "1c8415b99e265e73b8ab5b6dc491b44cd32eba4173fad14486ecae8778c7dcde48e1abc532dd598c96a9333b8978ff02ad1404c80ac4ca3fede96480763717ac54da2"]),
(640, ["82bdbf5f017af0f81cff89fc43ec7d912a686b92a7dcf7e99c477d09cbcb451937864b59a09cf100bf389b15757a6e433f9a26b24ee964e801b1275e99c2975d6dc07ef9936c83dd1f275db9f5dd8bd3", "0", "467ded00737c34febdccc9e1d769f3e3a598fb05fe06928366ec8a41784ddcf775cc947513b47eb10f656ae85ac316378624a273882dca4cfb3309bf8a6b003164af92f39b9a9c0767b85540ce89c826", "5", "20af6fd7c05ebc3e073fe27f10fb1f644a9a1ae4a9f73dfa6711df4272f2d1464de192d668273c402fce26c55d5e9b90cfe689ac93ba593a006c49d7a670a5d75b701fbe64db20f747c9d76e7d7762f5", "4", "7771f6d9a291d352acfd848c2013937983aed45c2a7c63f185d0425c5a97575d8b7f42d720e547e2d5bd9567a32a24a73c28574b439c3ee70f6c2cac6f3084cfc4f89cf5015db6c262ce5afe3f0c2224", "29cbc2dcb98c366934a395fb663a2100c8a24773b27cf340c68b8f2e1c77389de60dc006bcba1ede0a035026ef41ecc84130cd4f5b6b1f5acf44a4ff75b59bde3c39c5e312a590b7c24c2068555dd32f"]),
(801, ["1b13c7148ae9c5536cec6c4770dc6f943f2ed20f0c2ff2f4b0f8da76f519be4ed4a460cf3a7cdc03fdf9e116c5090298e38e5f0f94ab5f7beeb6c7ab1e6d8dd912ee111635ff24b979268f48bb975f8f221746b9fe84d22818858238354531b4841d5fb23", "0", "37ef141886820722ca5ed777b9d8958abcfb5c535fbb7408eed33054c9e16acd33bdcf7be875a1df4e4f84404883e2479091271f31accb05594186f8711c2526fe435b2356d68877bfbaec95df7f14746c80ec6e7b740fe501f0aceee5871cf4c6785436", "2", "6c4f1c522ba7154db3b1b11dc371be50fcbb483c30bfcbd2c3e369dbd466f93b5291833ce9f3700ff7e7845b14240a638e397c3e52ad7defbadb1eac79b637644bb84458d7fc92e5e49a3d22ee5d7e3c885d1ae7fa1348a0621608e0d514c6d210757ec9", "4", "d7fdfa2f13525d4ef6040e49c2ba9f0a2feb23150c5f690bf005b42ebacaeb900ff8cf182d02ef81d4c13f588e3621b1192aaba68e14e677d335affe760c1dfe3b2961927adfa510a4c95f93015fc6c4792d425304327574aa21f1429c4267141d1b1f8e", "19c64c90104cfefec6e431eadff523594ff3df179b2066a165981febd19be49a873eb44213380cc97f4668fd093477ea70b22387fe384bafd8efbf8cbff13718a0264514a0e7159baacaca634622d12dd82721b2c414a98e203d9baf5fead23c80dd6b506"]),
(1031, ["7da3b7be0508fd3343beb5fecd4bb028ac8fbb5bdda882fd8ccfaeec1f0940aacf051a9526ecd49f07fc4c3534f28125a14e810f8478add2ad56d9ab1aa5588951c4df20e97bf6aff42858b4b4ae3de7d9558e02eb7209c75eafa9818bb5f3d85141edc06fb8604615455f48f702cc2022d6cc07a377ba3a4e67f24d376099d02b", "0", "567db7a86c989cbb9c6e6db48e7405186d8c4efe5ef140558e69677d13b21ef9646a842292c59d59de50a7d6c0cee2ec4e4ca244d8b5b8e29f6a3736d0d2adf25a6af918d2fdbdf607b8b0a98791df81fd8e16a416880d20f4c2e8abc0892ddd06f3c6a7c5c8c8f3497bb1ed34db93a246958c02224631578f75c25feac3b680dd", "1", "1f68edef81423f4cd0efad7fb352ec0a2b23eed6f76a20bf6333ebbb07c2502ab3c146a549bb3527c1ff130d4d3ca0496853a043e11e2b74ab55b66ac6a95622547137c83a5efdabfd0a162d2d2b8f79f6556380badc8271d7abea6062ed7cf614507b701bee1811855157d23dc0b30808b5b301e8ddee8e9399fc934dd826740b", "4", "14241834f66c7ecc3a20c8e83d3ee5b90f79daed3b0775d0abdb3b54518aaa835dfbdaea7b38d44d2b41b86917049785d7a5e7e73126fe540223d569ce3960e393192801a22e006c6463640d8f1a3fb298143b9ec1e93972581fef027a8198224953cd3a54bf85d734d229d32f639a42211e4f9ee0d31194eaea2f8adf4f593713", "547b0b5f197a7cfb193c421fa44c59e4380197dfd1db12947270eed6e98e768aa330c95968b870571802d9097bad65c9c57564603a76e8178eca8f71da188f920a91717f555ca7a06e91e9974023c1a5c61c6dbe521e75492ce26b0a00809b5da0407468d68f573e46dcc28947e7bfdfae1382e56ed374320a6b06c2c7e38fca80"]),
];
#[rustfmt::skip]
pub const WH: &[(u32, [&str; 8])] = &[
(16, ["f2a7", "0", "8aea", "0", "b5", "157", "556", "3081"]),
(24, ["eff7df", "0", "b8ddc3", "0", "7", "2243d7", "a867ee", "d4431c"]),
(31, ["6d3cf57d", "1f12aeef", "465fe1b0", "0", "3", "2469c8e7", "2ef58b44", "3ba7cffc"]),
(32, ["c88e1423", "0", "9830f931", "0", "7", "1ca6ab65", "9845cf37", "2f5891e7"]),
(33, ["125e9e58f", "cd01841d", "11d2a9e35", "0", "61", "307abf9", "e4e87be6", "72816072"]),
(40, ["8544e79457", "0", "6779a1196e", "0", "43", "1fd34ca81", "1c059c28d3", "148899f24d"]),
(48, ["9dfb85a3cd73", "0", "3fd21622042b", "0", "3", "34a92c557253", "0", "14f1e4e5b09f"]),
(63, ["5f8d04b7bb2ecc17", "54b7ff50bac9e9da", "20b155f78330b78e", "0", "5", "131c342480aa35a1", "4ed41df6c3bf792e", "15be870e642540dc"]),
(64, ["8cb1b81a5968a723", "0", "6ed6887d482bab50", "0", "3", "2ee5e8092138bb5b", "0", "787a37b262365e2f"]),
(65, ["1e5f2a1d941cf7a95", "efd6cc7e3be0f01f", "ab8e542f58ec8244", "0", "b", "2c2d548829443bab", "c65ad7746b7c807f", "8485dc1d568b64e6"]),
(72, ["fde1f7ed0ddb64d45b", "0", "b9448a9cc0da32023e", "0", "7", "2444da466d165adbc5", "b466ce176e791f9f8e", "ae36975fb35fd4e48e"]),
(80, ["b6ef3a25e09b27067d2b", "0", "c143fb16abad9b38a0b", "0", "2b", "441192a8e1fbe9aa195", "ae93eef382e9a1cffa64", "76e328235476b1555807"]),
(96, ["8bea3124673af16cc916a4bf", "0", "3af01ba0f21b9e34a95afdc7", "0", "3", "2ea365b6cd1380d2046f8375", "0", "274dbb7a478a3401d8ae03c9"]),
(127, ["63450d6b62436dbfe0c542859d478945", "1f132785ab82593b5997ede5fb809290", "12e1b39fd101d41af03e9c180be96c9e", "0", "5", "13da9c48ad40af8cfb3c3b44d4f39f75", "3ba1e0150ff2a829b31de96a3360604e", "1cbc464c0ed4dd09257e77922d47b983"]),
(128, ["a4edd971edd41d4360e4efd5dd9824ed", "0", "8456dc922a9f35afd5325d1db30df066", "0", "3", "36f9f325f9f15f1602564ab18ae9f41d", "0", "1d3e06353e534a1302b41c4696d7aff3"]),
(129, ["175b990f4040bb24be4c7ca26368e0fb5", "5cffd63dee4ed77f4792687f76efcc5a", "3ef304acb3f88c5ae43f4348651c9248", "0", "3", "7c93305156ae90c41a95b488de9ddfcf", "10763a4b63ac291aca1a60dccb16e4abc", "a1754fcdb23440a551e1453aa5b2e65f"]),
(160, ["9907e43e0707a2d19751d4e8f5ddee2b1988afe3", "0", "f241ac38664d2ed91ade0ea34bd15170800052f", "0", "3", "3302a16a0257e0f087c6447416fffea0c1fb1f07", "0", "501c38c6b5fc5ceeb5c41fcf326cd4ddb679618"]),
(192, ["e4940d92a0ff83670611cdf56954b3b6f88b49b90caca3ff", "0", "e42120cd8e0b9ede49f3ded624bfc25ea3aee5218b4c7c97", "0", "d", "11953c1ef8b1317e1428c112d0d56d14ce14bc8d3f30498f", "61798bcb72727368071b4e823ea4b928f652ae4d69ac7d53", "2ff297d7f9d726ed9c5d46d66be571c9cfefeae6c2b6dd91"]),
(256, ["a428db4dd391c095c9d151b36cafe31125108a026b0d4c5a801632f5b7d63045", "0", "855b4ae78d3b9d91e3bee0817d23972437070491813af806a7cbc9341702f9ee", "0", "175", "70aacc0c3c19e911034e75d7cc4f89509dfa724312f5681dd441f46a53b591", "5549c38aece113c753b1467d0461dfb8a613c58c4a52f3c5b0b987576d4858e7", "91ba60f57d1ae682458a0ed919d9d2b34a47857af3dd57e22983ba2339f33fae"]),
(257, ["1217728f1fd9e45544be5427a7ea9d7e081c9511405e7eb7dc936263c055e3ffd", "488caf28ff57c135786cae21e78694c985401b155eeb286da4697d1a9f2d1041", "1145c8a9294b8245d62a53645ea807d088608fd845a448cea42a930c258fb798d", "0", "3", "607d0da5ff34c1c6c3f71628d4e347f6296e7ef6597f0678817acdee3ecb547d", "39ebce49bddeded76b18fc27791a8ddf9f09c2fdca883932c32f30b0d8025e43", "8e738cd3c1b33f01507f1a0bd70d6d40dedb869fdf7f88a48799b1f515ac89ac"]),
(320, ["fcef7238c2b191803cb8a57a785abd9d9e2c102d50cf613bb4ab016e945f20ce388fb850a5072d17", "0", "b75d6d97da5ee1a2eef1e5e113056319ed9aecc74f16567ecf3134eade2ed62be6a8d361202baea7", "0", "3", "544fd0bd963b3080143d8c7e281e3f348a0eb00f04e3ebfd866307eaaed7b70127dda67009cba2ab", "0", "f23a56671bd0cb2a8ee2a2f81d1547f09d0c239740ac1eb72bf79cda5f2aa0dc60c4f84310c353d3"]),
(384, ["c2f9472968df0c3e8a4c83ed95cf88d30147fef9aa38bb0a429b2c5cac59a2987c6f0814bc64c91ba0467563291b74a3", "0", "5f9ef172dcabffadf5116d225ce1804077385ddbdb800095cd928c10bab122a3c1342ee23374168c0891a293c691130", "0", "3", "40fdc26322f50414d8c42bf9dc9a82f1006d54fde3683e58e4ff481ddfc41c64888aa758cebb8e871e820569cd682b03", "0", "68842f8e1eba4fe1d0fb37d9dedd2fc6a8afc9ee32b74bf5e997d02f4206952b206df94d486e0b6a7bf76b4f4e049d30"]),
(512, ["eb6a710c73fa3a38cbdf5d941402e40b0a4684a1ab28439a264e68116c1827a0925dd2fe03092ac78a39d97d707c8d17cce3ca0f1a7b21ded1a1fff0ca70071f", "0", "e7627255395b28be74d599f596db9de0de5a51ce656cf2cc14dd778ac6bcba3b07ef59008f0e0a0d1a56c8b9a541699d42ac9c915a9644989bae23e07020ccee", "0", "3", "4e78d0597bfe136843f51f315c00f6ae58c22c35e3b81688b76f7805ceb2b7dfbc614b2c45ab58a9b09bbab59c126e2c3fc4be456d9330e41c0d23bc1e591159", "0", "af286602a52f09a999b83c0c35fb58c4b8024b6cdc81969345811fa672f9e2aeb53f083a0a5bf107e6ebec3fe23f1c2c32b03bad6ece2c8a7e166f945376bfea"]),
(521, ["1d91118a46ca3f64a74382e10a3cf80be81586c0be1aa622cdcb7a3274ae1677a8e2eac38678bd9ea8c5e9cf359ccf75b65810905e341bedb13a885563668480263", "1d182a6ba4fe744a17134b90edad5d79bf0f573ea5e7feeb97712da31da2fe914c5abdad1d07a04b6edba76c762690c0f4ed435a8ae15cc39381ad3dfe6b50dc8a8", "34fd419dad02f099a1511d12ff68aab50660180cc26d8953dbfe7d235e9490f9d243f809bd393a90e02a28ac4e938625ae37addb2e2ef9d3af31c5bd31f4478144", "0", "43", "70f89eb875a53ea2f95da7a845afa479e9655ac1e1d4a0ff402bda8b4b3201c93b7334726d3eb6aa74afadeeefc6d941accc928adf050bf5951dce9477c451423", "1b71a142e70d242e609d6da0517499951a88962f639dd2669e28ca8497f0252fd5da3fa3d4efaa7d2a3980214210928b2d22075d1c4b01a61c007f07305814f4772", "707e2b8b68e99c0906636e4fe50afc3ede3f4368a85ae4a9fb238d758db2ec6b065188afa0ce956a5985225aef431ad17652fe07ac370f2eb83436a16d64266556"]),
];
