package main

// outside are otherwise valid keys and signatures with a point of small order added
var outside = [][4]string{
	{"signature outside the group", "7155d2c193f6fa963a72fd5b7d0020cf8c2d8b860075119ba456a0f300e1d5d71501500c9a9b673273b05e0f8705f90aa695b7053acbe79a124dac15881865d97dfa3bb62ecffd6c7092b7312c5a30ec37a07a0aea9bf667bd95e22821100a02", "c3", "51ab4c3b86f5d30aaa48b09d73c9ab5138a51623a29c58d85ebd767f099bc5c3f9c8e5349fdc6b14db804d018ba07a12"},
	{"key outside the group", "c76d5d9adfb2b2374943d3f1892e87bba26400acb623acd18993f330a9a8d22aee4ac6004daadb467171c1fc278cb2110b652913eca005981c52399d2aeb1766b2926ec64a3e16d6770cf975feb8d67a2bb01a90dedca9824a822a6cf21afd90", "c3", "56e5f108f6863eddc36e31d8caf611214e3947218e582dd4563feee210dda21966bd06c27bdc853a86b24bea4622ff99"},
	{"signature outside the group", "47f450bfadc794f94c8b2225731a19298e7c2f31ca25fc5fd96e31973d1a3c272734ceb7dca4229c8bf47b9575cb3602bae69ec6173b6e02a2d9479a380598b0f9ff409743b3fdda2d090a142e83cdec51c2389d8616944cd253f8f0fcafdb81", "eb612923", "b129e9f41299ccf1b041af12f78b285b95d7408e6209ae0c0d705f59e27a11fea794f7bdff19affaf106cbdc31bba011"},
	{"key outside the group", "d79dcdb77c06d80b671a323f96a27f91f0e4cbb50b2d2f56a748a198477a6e11f0574154c61b8cff286b994d5d46381092f51da5ef353f2aa541b07d4573436bf858afb1d356ef27bd39254fe4b1ab0f8528d7a6576d5c41a13ae8a76d43910c", "eb612923", "7b347d094b554ca4ae1c752f45c03803f1c577469b101d2f8566d722e59b07dfe88fbbe0b1033d9e4dcc25cbd9760f15"},
	{"signature outside the group", "8841d2fef27f098da95b392fd72bd90321783beb468832537a91e654adc0d8f06c1ca2a2fe0c9a5b841d4c91c8950215ad2d337bd876212afa2b967562675a92aa7d49f718640f10b681ad1d5fce14f04ea93c7d997fe10c1aa2c4beb0679298", "5e13c4a512671b", "066e15aa73915bf69c7d0682f88671cf522246eedf07bdab4fe7ff73139574ba086d5e292b4fc998dd6d11c83675a613"},
	{"key outside the group", "85feeb7d7d17dc51f0f01e43434f76274e3283cbf3f5e8fb56b98e0ff4688f65a682a48fece4102df4dc19bdcd507513fce1a76bc9456ece6511a3e819f1ee886470aed5c85e05c13425b11064f766b33beaf13203c3d3351719af953d902708", "5e13c4a512671b", "145d1dc846bc88e8d4d35473db579bd44caacc1cf781d4f0d826607006c3cf43761380c073dc1d5500f43067a28f5204"},
	{"signature outside the group", "2a78c9eeb1602e50513241d198e928ae9bb87c9479743f8770d801552d5f8b025f9275dddbaaa09bd7b660a893ea4709fa315a5853f5274b43a5320b9b010c1d47cbdc182f28ca4faf7305edd086d9de90db1efd2529f323f4e080360344cf0d", "c97dab811fd8a3f980ba", "30a94027a43f978bc19a9a0205b4d0d5b0b5b7fbbb740335faab41507aa17acec959b1759d6c6c396628afe04fe0be83"},
	{"key outside the group", "186707be4ac4d230afdb4fd6b22a7a36bb64d265b0b5fd3326b97e1c7af360535f7ffc5b9fbefbbb6e59f01713460f0d87cb3096ea3714c181dd6debe009098181e399a0b9b13a52d41416754228e4cef8c8f10a24ef55a8c7b7cc51116f4313", "c97dab811fd8a3f980ba", "8806ab6d483e76531aa5d69b4934a6a721bdd40a2722317dc36949b50307fb2e0123faa9d398527a169fa8b3c7a16987"},
	{"signature outside the group", "468a2e5dce4364a87457b439e88e10aa30bbfe9ecc7554928cc2780487680fd8673b4e7856c8d5f85f694cbde142af0f013dee84ec9bd48995115fc16960baedad63be214c8a601c36ce36a7268ec3c2ffe3c55519412bae6539e790c0627e10", "9dc43b2fb534fb001b0398fb5c", "c118ff66c0da00be120a2289ef6676ee3dd6a49d5defb37d0171eb4ca3e9c0b3882d1023c11d94e97d1c4697c0bbf218"},
	{"key outside the group", "9b0fe3a2e0557614b3e6f3c1aec7b85b9f25c42c0046be917d6140fa41a0f55fe416c22d345f514c0f7d5ffe23cc250f71b939567b8aa86a1cb70888806748b7f082cda3245554ad737cafb2ba405a87f2163073138befbb8061994fdf13e787", "9dc43b2fb534fb001b0398fb5c", "e8e9e34ed687fc723897d5181ef62540984c7e07ca8949d5add1a6a21cfeb6a37870f78110c78477743c73a7f867b013"},
	{"signature outside the group", "88e80d09dc9aa34057209827e86fad24c2e5a52e84be9a5eaa7833c0aae24e3d6010891add3f419710e35ccb16cae003287944ef05e90b9fa90b527f053ffc467d3387ca57f08388d1a570ee572b7e612cda6a69fda5f7b1c917357e62cda884", "0c0310178df32a28d572b9f63aa6befe", "2f3940ce3607c133fbad53d703057930ba3e86c62e49158e6055413f9edbed3c5e4a5f4c10675797c84b9c3cd453950d"},
	{"key outside the group", "1d465bd980623ab558a38461c394926cee6bd8c908eecb2128c33b842f31dc574e02d3904f73f10e44b2210655e346017c6f6f6248b9fda02cfc5def65cbd875b056a6216783130e3facdb0719e3add503e9777c2f1cb64e542a3229001f6a09", "0c0310178df32a28d572b9f63aa6befe", "53096e00bbadd93a06b3162e73f2808b4600475ceb8f9cff62dff3fe8988b02243385abd205e92d112709efa0a0ef296"},
	{"signature outside the group", "7cbfac314240d2b5a11c2ec8e47ee7c5a7afc8587ec2bca0945704395473008cdc886adf52c668828d661491fe11e710b7ada5a365e41f7a85c46c2ec45b4c2c8f159460257ca1af022a6ede52fa1403d410d24b844cb0e16881dc148e481c81", "fbe56fd0ea29cce042727bb12940d93ddada45", "988e5b4b8b2a8b184b3d2c605a8d5ca7678d62141d8196f0b3483d78360e33cd3bcd36e051b1985224dbb028718d6d89"},
	{"key outside the group", "0c329f2cd68129886c2bf975151acc7dab1392f680ae837ac3468206487a758f277e9098252fb058ecac8d85aa78c712f87a10694c4a1cc3ddb657339c4e66f4f3a0363e3f42d09bff743a139d6106b6ce448d2efc8eb597839e6b5041ea1a00", "fbe56fd0ea29cce042727bb12940d93ddada45", "ec28b46c380387dd09f2cac09acc3b2cba2cdcdbcd6782d026b5789a74fd8cbf9c7b8eda6c565a2bb44fba34bc3f050d"},
	{"signature outside the group", "5b0458bdae5493610ebdb6b1ac2409e8cc1a6e3f32b00d8cdb90ca877254b839656706477484c0ebd6fca8e2abded812846566490493edd83c58d48064499fa84fef99405864c2649c26062eff1ca1aabb893757a81fdec5bd356882db78bf99", "e285618894132a0b0772bce1073001bd33c44fbc1807", "19981f50ddab6c5c5cf828e047e518c8fed1e30a7ec680ff9ff23d814eba120ef1f163ae80b02816dc0c94ad24cdef05"},
	{"key outside the group", "82f3c6c492cd8823c317af8cc4ae668223577fd462f96da28cf2f4f5bc9347a8fb9c73023ef292c107190c796629830d1ef41902dcba45afa763c00947c2e21220bd2e87e44ac2d70538a332696bc9976cb33b4a48d7bf47b675827b7f02d506", "e285618894132a0b0772bce1073001bd33c44fbc1807", "1c31c491ef2dd3414f152d74e8ce9cf9d218d57f4720dda16ca06b2b91df91a2942753891709eacd571588ea0ac0e580"},
	{"signature outside the group", "c14d1cfce81723c072b129c18ddd54805bf8a8a434e43ef0d4322deb19d7c248f86fe5aaa6c1a72c06fd55497e3ceb0fd3fcff51385aa2e02ff85ea9250dd72a15cc3bbd96af63e4a81137e5b5da9d4b0fcdf59c68b728e1320f7ace3411ac85", "18a519f613bdff6b5ef1f055ea7ee41e78c68c7b926bb65e67", "11d20a9e683d2cb1768c555262763af06697e6076c19244a8c4126809c9a9cad8fd5872e9fcd2b135d7ecc1e22326680"},
	{"key outside the group", "2daa3ddf25dde9a3f4de1243db63c426125a83fb213a16012f41e0e4955c13a9f8d59e30807d9d7e9bd9f3adaa856518b6d61dbfd460e6c18f490dc21813fb92c54a22759723bfed11dc550f79a9b7b15c925702d4749cde042de1704fd09617", "18a519f613bdff6b5ef1f055ea7ee41e78c68c7b926bb65e67", "bdd7d109ffcbb2a94b8e6b6431cb5943ef26e6dfd57e2eabd126a84002fa569a13db382b619668ad7215c164a8a5a58c"},
	{"signature outside the group", "7ba64abaaa5a6f4c665162fd89ecd409b7b5d91c1b9f7cf62dcd3ab37faab8d66426fd9f83ea66721195810b25bcc1166a2371bda3bcd5b37e1ee52a4aaa1227d913a6a6cff988f340eb66d3629ea49614e2921c462611bfb980747d4910eb85", "5284f3d07f4ad3ea7b2be453c1a58181a172c63f9542886a2659158c", "1fbc9bce0e1e8d866743100ee6db4e98ccf42b04f8087e7e39b8092e344d9ca22ead88dad4523380a974408846444f06"},
	{"key outside the group", "90000cd487e9850d0324fbfca72f7cfed78b9d5de64271743c8d0b88502debb93310787bfb9ff69732bbfcfcbf8503109b675e549a34c121d7641a989c788d31752eaf5d7fb253d1826419ea6f6da53c0db8df411b75448a10bd281649cfd584", "5284f3d07f4ad3ea7b2be453c1a58181a172c63f9542886a2659158c", "6e4eb3523638b22e6863d236a0efdaa833c8eacad7f5450b22c30e2b49c510d902331b635987e93891a479feb223c580"},
	{"signature outside the group", "1515d07d3bcce175fa1f5e319401cc5f3430f3f3393332b3a4d9400c9632ecf7485b58d960c3dd647749d06958234c00e2cccaeff2c93c757b230a1e92ee1da552ad9396852551bcb2ac14e5013c9613d097575cb7aafeaece7c1cdfa264c58d", "c96a37a7d271de1e9467230225d0ea405080203195c2dc21af0e3873921785", "1fb081262384d8596a13efa6f25cf968e274a903a0334f042e8b8dd3d0e3e238947af2b29722b68f5d3c3adee762f00a"},
	{"key outside the group", "f9a0b17e910aa0e794c87b084748f42753954c779b10e0c498c2252c6fde7547f3eb57606e129c96c836a7585ac94619a088f393c9537a5e6f9f9208a908413e4eade2092ac6850dbff5c2ab3a731d21d5f6d2c3f778111f98c84bbfc86bb516", "c96a37a7d271de1e9467230225d0ea405080203195c2dc21af0e3873921785", "6e63a3e9ffc4d6ec35c0443657cdbfa91dda065a15ec5ff52d188862c77ada5ec61bb4145f7610a957b31796a5985593"},
	{"signature outside the group", "fd662aa98d6548c7ea2530e009f3d2f4f6c5315b1851bed909d1c2685e6f71954d510197192aa8851a1930794ac5b31462ca04a0f48c366470f4017dfe9e2dae59981b3d1398bacc405bab337c3e4a667ccb882370020232d421619fcbbce60a", "d11d8f5154178553acb61f9de79ca80734a77ab4db8a539e5fe491eb1d7e609b2bfc", "182795fe759be6d742e6d1b75d67047fb97357a1a394c355d2f7ae46aee6a62ea1f93496b7dd6394f1b5c56c0e464604"},
	{"key outside the group", "1bacca3fba1f4f50edf4a155c146c172aa1f47989c16e3445df4bbc2ef6b87369dd9629fbd3bb8164faeca00acb8ed0a5f4e78271a195e6a17ad0cc78ec6770797abd78a010c911566895547201590cce3b9bc411b25f6ae0802ff5c7435f906", "d11d8f5154178553acb61f9de79ca80734a77ab4db8a539e5fe491eb1d7e609b2bfc", "88d32bfe2760cd22e9e88ae6ecbca260d79d4040aa5777d454b0cd156b8fb92bc403883acaecf5c6ff539a034e07d181"},
	{"signature outside the group", "dccdc56dbe6e4b347972316129c9794525cecc2877bf461195e0e2f7b409edf604821e7197e00d047b254182785bc813cdfbbc9d0069bc3d7ff269a681a5c6615fa42a74bff86a8aca0f2889cab63e96a7357b8707fb2bd1c089faa6c422d704", "e2886b262976d353b310c2fe84a068d69ff6f39e7cc6b1969a1b4851a1dfec5c02b38a010b", "6778b6cada34f771e768915ca8f62b0c4fc7298051123e3099886682d5bd743c37962f13c0ebbba3d326c0bcb7979490"},
	{"key outside the group", "f82b96819709f1a6a3f1821a95ceb05aa15252e32919de174c9fac9f72116e3a07c5bf95b7665211f8cc9bacac162d0217979e153ac1e4b9f3769e3d084eaadb2fbcbc69af4d64a71111c83852ec6a0c5b35a494f39a0ff624f9fd1a568ebf85", "e2886b262976d353b310c2fe84a068d69ff6f39e7cc6b1969a1b4851a1dfec5c02b38a010b", "7ee730af4ca452b1a0bcd389a49ce572eada05d315702a65b7781935d5c4cc78dd7a0f5cc750d7f60cf5e58c29b1fc87"},
	{"signature outside the group", "7e5c7a17b9345bec1d09b9a23a9a69a6ee18e2ea33b32ad5c9ff523ace3253b8491f8b73af5d38269af68a670ee88909e77fa439519928edfc97bbe4ed66e557840de1d4d45ec19d6503c7fe97c5d1a2e60c4c96af42b0c737f029d97e04e105", "573457fc275b42e10aee6cfe393ddb02a55b074f4aeb7ae2d39f1799aad06532b5ff49d9ae54acbe", "9724a80e32714ab2574e95d0ba8cca8ddd731d7a7a383592adb2b14881edc2a242fec366fbd1e804c4fc997b50c37582"},
	{"key outside the group", "155dc40e5027e5a64a50c4666a501fae7fe7118744124c5827bbb8360955b326c8e99ce4d8cecd8fa9989970e9b7cb04db5872b7de39aab9aafea20ab91c866b3d6098ddd7a9a4d896e812286ee1b48c1b23c72a63e94e71fc6b5e8743192c12", "573457fc275b42e10aee6cfe393ddb02a55b074f4aeb7ae2d39f1799aad06532b5ff49d9ae54acbe", "e8f39a85f3866d9f435ffe0b65e547ce6c1447669564ac224634d68fc71b0200d0377f2845ac300253a95c50b680ca16"},
	{"signature outside the group", "c6b1035c273550ec79f099c785f71f758fe26b305dfd80cb8a10136ce1339f6d729dacf4ddaa05672bf8191a17eef41711a429df477135f75e46a9fbc182cff43258848a072d9aa57c4a5e1e9ab1149b94e7fc4fb3780f993e4e995469863019", "9ed0e6453d1f24725bd8b235d168918d82e36620786789b0af270a7ba1b68479bfee254f86a2130f357ed4", "fba98d5daf119f7fd8a2d11c42a033973c074f44df599577c7c0ff14ba6de440406556d2881c7aa587abe2b59a8ade82"},
	{"key outside the group", "4496389cc617a4cedff940094cae2868603b0d2a5d1738c8cb15d38eba445987ab10c3295b18483915032653eb5ccf14375194a58f01a4c90ef8068cf242d3e15d181c9a934b90d88d9e820d38bbbc5fcf6328f19409dcb32a1cdfb9d1a8b88e", "9ed0e6453d1f24725bd8b235d168918d82e36620786789b0af270a7ba1b68479bfee254f86a2130f357ed4", "d0993a53fe4494614860939b529ef834dd1a84727b6f6939f9b2aa32e3016359914fee1eeffde1e653f534c02f27580b"},
	{"signature outside the group", "bf2e25ce8eee7cfa99791c76f12844e7f69b6c1f4223afd88fc66e927b3b751231c96d97973cf5532552fbabe3089e0302b832788d46677c429228e584c9a5557dbe8e9542ae54214ad127b79da54d651f5ded975eebcd54b08f09ba0b2a6e97", "75acb7de9ae727b355b5695ef320b94ec1f47b44dd93732b3cbdc66c2c6fa845d5efafa819ddfeccd6741dfc1191", "5f73e5c32a2fd4eecf9f8eddc7d3b24efe982e5caabfa3bd7785fe08bf6ffc0c93371b1eec37f458a2728612fe4b9d99"},
	{"key outside the group", "3c37f10fa918035283dcf16368c8f8a4cb1ad76c41975e38ed86b1faa84037a3289c5dc3d8b81193b97d3099b527c009d5a87ea774de06f4e334cb1fade3106c93571ce16f65b233479429b7af70783ec2d91c696a7375e3654ff3771a113e0b", "75acb7de9ae727b355b5695ef320b94ec1f47b44dd93732b3cbdc66c2c6fa845d5efafa819ddfeccd6741dfc1191", "b56fb6dfd1b676f2e9e2b52c8cfe486b6bc086aef806e17502d187d13e9724d7795823996619cec7381a3aadcd89c698"},
	{"signature outside the group", "d3050da9cbdb43039a362f3ab25211bbcab88a7801504f0c59460394509fc3faf6c218b58c5f916e725925b45120e919ba36d4a9d0ada3dd875d45173d3ee91c5971fa6b7cf9c05e456ece721613db622aa0030b2f74f8bfd81a3a2f76af8f19", "b263684249efe6556dd72e03988ebd9fd332e40ec8d73d516531f490c301f495626105060a3694577cdabb1bc9b4493373", "44f22cddbb72ab8fd0903166b28f45a178cd9695219e7bfe2c172a084217107304dec66fad61f602ad26b09a48105503"},
	{"key outside the group", "14ea3cd0709a32451768c10d70003c60d7972fbc9afb8e83b1cef696265688bb13cf4fd7e66464015b5fb89e939eed134f812691894886eb93a230d9e998b43e84355ef50e989338271316c452f65e90ca5461617ed2f0cc254ac4f0cf29fa0f", "b263684249efe6556dd72e03988ebd9fd332e40ec8d73d516531f490c301f495626105060a3694577cdabb1bc9b4493373", "0d668086615ff520c3e79d30959431b4073d3c8783f1820b175eb976cfc511f909c2192e3ecedf08bbcd66c33144af84"},
	{"signature outside the group", "0084014a822dc44c07a2472922004a1d3b422c6f221b751bf6b7d4fce480121f4d44263e7c61877db0d6cbb5553ea803840c6b6cb150978e8790f01931d77ef441e53e26daad036c8a3652a229825c69e3f9e014b14093e140d62b2744708f93", "5626b35fba46f3cafb17b3b0d9e77f088951c7802d627f799d4c04eff3314f862d65f3861cf95e2099ce4e3318d0e1aed9f56fcb", "6d8e3576c7dfa174b76bf5e6800d41ff409e384f333d4761daf4a1bddd6e140f97c795f52b7b02e2a0a147aa31a93c87"},
	{"key outside the group", "084e829e8dfdb78bb015692d2de803df4d9bdd0e04c4fcfc7d803973c3cdcd71ecb9029b4e06c4d901a3e5daede37d0cf89c3d10c33a18dcb68aafeb70b447189637748485770628eace54f23991b8ad75e46116fb383ed4a362db3afd96f896", "5626b35fba46f3cafb17b3b0d9e77f088951c7802d627f799d4c04eff3314f862d65f3861cf95e2099ce4e3318d0e1aed9f56fcb", "5f70f50e9961426eeed95fa80868d9af21e002425dc1c89311b6626821f28019c8294abd28d0a9c1823b3a0cfb574286"},
	{"signature outside the group", "562abe36ee16036f7d68e64f64591120a729c198b802e7a449e39fde2e804ab3bf6acd766f3efc46ab5d67af9ec079186682016b1e8f3774a28ac42e8340bb864098da34040833dc7306a2b3f6e21637cdcdb346af8342e2a85e5f9bc0266305", "6922396b72cfbffe734d63b7875e5dbdda9f3529aa67d8f954088ddc83ec4c59b0d61973dd23614d6342351ab397729a8395663278c0b3", "ca4e5d07ce3d15362f54f3483512c7bbbef27e137530756c5b397b50fdd6c7216d11fc9943a9c99c5f5d74d27a099680"},
	{"key outside the group", "ddce731e182f3beb5e7e2a9275a3297a9677a19b61d7e788984d85c60e4070766ea99f18ce011d35e531c49b54b2791828ffeb376f43f7a535f2e7b702e41b7dfe550522aec25a38e7b9f881b21eff1c6077cab385bee241ab9d1ea994ac8e8d", "6922396b72cfbffe734d63b7875e5dbdda9f3529aa67d8f954088ddc83ec4c59b0d61973dd23614d6342351ab397729a8395663278c0b3", "a65b6fd2976469813634cdb0927270f4bce7104a35ed7c52c1402e57007e708924c4f05799b487cfc9a69c9a481d9119"},
	{"signature outside the group", "46b9c2f323d2a20dcd2895f323bd39538af56dfbafc499b87b487c8125b5d1a4797dc9a4b400fdcfd8f6884a04bdb11694ce722c09b05786b3132770ae36d99b4edc8d7484a220f08155b8cd7ffd05bd8520cc37ac2d0687ae90ca96bd9e2992", "53e54d7f5f00eaf5977357a3aac711df540afd944c89d3cfd3b5d7dc76df32721e63771ef5190e2630ef8067988e5fcc2dab92cbb19103e49ddb", "27e57203db544e5315360c42c38197232c749c8a713f645fe7f1e49cb1d57c2228f6fe153e677f14134a0ee9ac520e89"},
	{"key outside the group", "76a18a894b2313a9e9369123231701025f4aa3707b7301a80b793244ef7bb57a12ef2baea678f8992b0e951d7c98ef19f846a75e3c98c3b351885428ad5dc3ad93332e959ed348c770c934a69fd7dd44a5db1594c04eddfab3c3654a8b08df8e", "53e54d7f5f00eaf5977357a3aac711df540afd944c89d3cfd3b5d7dc76df32721e63771ef5190e2630ef8067988e5fcc2dab92cbb19103e49ddb", "ff6e286cce2e3ba8fb49d0ca38edd6aefb0f0e107e749c0f91a14b08bbceb7ed96c460badd17754b62313afa5ab5b299"},
	{"signature outside the group", "727e85029dad31cf3f1f79d72222f1693a29c47db2c37d124b6755ee74d94f8704d69758480bec39ae1fbfa93fefc007cb684029920a7c3d10216da8895890725b5c5982b1613d0b3b400f9e946805e95c5fd2c13e1258b2803962e1f4bd328f", "55813caf7a7aff04acc3803ad31d41ba387c6b78fd6d9994563a609564b9585d0915ea73a7582205dd7e487053f326cf3d01407cb37949772ba3717342", "4e9d8edef56d4c51ff68cd2ef7ca5da82710890ffbd11e4a1fcf0afee7636a570c251c4c760634a54c942ffade121f87"},
	{"key outside the group", "d2d767a9ade4dfabe8a1f90c766c237434fcd2cb679a153c241c8742455e41e07ede416cd5b5d5cb5df4f75005db25148cc9f5015ad0960ae18381de3fa0c75a5a61c859d4e6703a3e06d0a387668286b5d257834c75d94806e79148f5502113", "55813caf7a7aff04acc3803ad31d41ba387c6b78fd6d9994563a609564b9585d0915ea73a7582205dd7e487053f326cf3d01407cb37949772ba3717342", "249fac491a4ceab7ca4a35302c83e0de9d9849461243f565ed5ccd2e585feb96754e06c22cc974a5931796821ceba38b"},
	{"signature outside the group", "2c79daaa2b710346f1ee261aeadc96305d0efbfeb56f01ffec0627cf86e1d5d4a9684b2f776e9d6f004e7ea78968230d8f2b9c7dadd246c0c178978649c8a9f68459fd71a991759b06c8b473f1a79c3853e0c5da0013fb1ecc0fdfe1d7504b18", "1ac1e84a59615f4d78413eca6d71fa672c63053d9d851961713eb9aaf70bebb0bdd656ded44b2d6728d26087225d5241e2c836cd5e6c8826e12e74938a78338e", "850864543efe7be199d2c359ff3b728032501abe88164fa13d25ff83cb0f09ac23d81c94103444617486962d6b447810"},
	{"key outside the group", "c56cc33ac5750c977ede336d2a878fe1fe5878ed49eaa24bac61230fb730318278114a84ecfe807ad5eac1eca2143a189e56e64233e4873ac776ca1f6815f36f6ab284ae7916d326c411081ae2f64fc1ec99cfabea70907a9d64404f37d1fb01", "1ac1e84a59615f4d78413eca6d71fa672c63053d9d851961713eb9aaf70bebb0bdd656ded44b2d6728d26087225d5241e2c836cd5e6c8826e12e74938a78338e", "d18c033fc5001492bdebc0cdc9cb87add40925a242b21a76bd264374ade6ed8cefa78dafa1a629ea2c4b8d1c60565b05"},
	{"signature outside the group", "c97aab3e238bb11bfb752dd296ecb834bead96b8d4245e56eabf9d6edc68f41c73eb52497c10c63b10af6282a34f0504cf711531862fcb55b631d171b9d02a69cf06294bbcc72fca7b7c6f38dc622eeaf2d5eb3b08af14f82895ebcd22492419", "7e6a043136f4d22784a10b3fee9cda8237f8b575d61b021c3414e02b321eeedca425b7ceb96bdbf08d94b9ecee6b4946872bd75f0982bd64f9c6368ffd97281e81daab", "8e4795266b419aa36087b0b5bdfb4763ddc2b6cf7dabfbdbdd1a097ff96a0a9a53f66c8774c9cba7bb07ccb036b35486"},
	{"key outside the group", "033df9d66e2421c8f72bbe9889ad63c721fd7801cf753af64ce49e37059a437fc392bd8415e233d77dbeef5d87ffa90a8e6dcd621526cd61b1ac47c3fe1c7ef1836f1fe76a7604d5b310b87272604ead7aea125755003759dd1bb059713aec87", "7e6a043136f4d22784a10b3fee9cda8237f8b575d61b021c3414e02b321eeedca425b7ceb96bdbf08d94b9ecee6b4946872bd75f0982bd64f9c6368ffd97281e81daab", "fa7fa90e68f4bc110f87b4586cdd11848edcffb850ffed570a5bbc275e870a25595da22341258c8d764ef82a9c683406"},
	{"signature outside the group", "516e6d797e2e792f132b7b09fc34e1131e57412b03e8f815cbd7891af88995238d9cdb60a9a9f108c9b20cb80d262001263637fa1890f1ae8bf609e2b239b5bf4b6009526fca8efc89481af1cd977a112b3fba8e8465cbc874dee7dd72029209", "1760fbe24226e687043690b7cf1a7af43d6c0c8b096620edf914c090ec9049e3c0a5444f23a9b3feb527949cd1703dfbd5856c297f64c7de4a1abd1ec0628426d435f8276d45", "c5cb14fa854340424fc5d9ec77abc21061525b64d8882c121ba2adad3edc2963175d674382d890dae6f8e19546f46685"},
	{"key outside the group", "cb2fcff41227662e0a579451b5cff48acabf99fb05f4fae6b4203114da015c28d0936c91e66bd116a1d16513497bcf06e264b6686031e7f79d0323062b802caa9d79c8e59f59ba8bc43e5cdd8631cc15e828b48fcb21e0c419a7fe84597e0698", "1760fbe24226e687043690b7cf1a7af43d6c0c8b096620edf914c090ec9049e3c0a5444f23a9b3feb527949cd1703dfbd5856c297f64c7de4a1abd1ec0628426d435f8276d45", "668f1bd7816b9344db7a1baade97ef153ea54ff7c78380c36d23b450cf075348d7b11c38df14ea0c62eb877641b6a80b"},
}
