package main

// Keys made for these checks.
var rsaKeys = []string{"3082025b02010002818100a656811656388cfb13bc933d75e9bbbea45f98075e6c36084bffff40a24e4e71993c99726f3e3395e573441c71402a9d6e" +
	"f88fba3568e8316d20e96a2311a95ed0d9be567fb727eca7fdc310f48d36721aec75abc2e313c4227d99935ca79087328c8ae5b2bd19b561c0b132a7" +
	"eafbf15c8baaf6396fe2f8a1aaf82df907769102030100010281800cde8b7d3d6d81a6d9579132c3a13257e522ca41e3b1ce9a64bae9364878738441" +
	"7d5947ebc86db84eb8d4cfb88964e2aa57cbd2f5d7e8830e74e9ea3ecd5a83adfcd1a1ec401dc8214d29c7cb7ccce99c9376dd6f7a9ff8543428c996" +
	"590651764f212a8732c0d08d4990fd0dce9a0d9a9ca8c172ac0a5541b7a9d1bb9bea8b024100da31472e79e8dbd0e86fae1f5fade41fcbcab8af6aee" +
	"fa23dd375cf61177dd2759671c2eb84bb4e839721c270b03509fc35fc763cc78b136ca64c7ef2c45ff8f024100c329070290ffe6769f678e247c3ab5" +
	"c99cf4945f8296727ccb3ec3d59b3ac641f3ecf001c20f0ad0f05c3337f3a9327d83c04e328d67a192c88f98a8f46817df0240557ad6c32b79819c7f" +
	"6339590b37e9d657158d7313b69a02b0e8be9f9c4a5436d53ca2fadeb2b2260453631a1ca368d39e4c08a65d75af1fa2fd06a2f9ba569b024100ac85" +
	"022b649eb2ce3e0fbef9c5cfe88f776e4613404f5a99b2d9a3289af693f80d77709b3d3f2ae294f80c56f3d0a84f883e616212da7f5c506b901a1b24" +
	"41a5023f48dde78dadd6bcfc55ca9efa6613f3703b8c12f5d4f3971588da65f53ec5a39b783e9328449832a9e52c9f4022fb1f10be8069f243c7a6ac" +
	"322b483deaa1c3",
	"3082025c02010002818100c0c929f13843638ee901624feaf279b69a7671beb8c027499a29be216f328d597c12268ef75eded763ebe3f4ddded6549c" +
		"f55e2f13796af1358992476d03bb2726bd8c41b63e4c65a2c20dabd0a502a8008a5d80fd7c242e73040c5b2f0311df3764fdfd7de10e0518151078aa" +
		"8d4dcac3f8d64b7a96e9e4154149f47e3c06a902030100010281801eee4795f0567e3b38197a3f63429067a299b2a9e1ca26a386f75538d7b699cf76" +
		"7a125dfec4bb1128c8233f5977a96b52f185311d63ee2b66d111e5f6d0d1ee70a45cd9c67137e94201f7afad64c45122d29c2841eeffe7d1b3fc1a56" +
		"834ef86c181d87941e5efafafd3e1c5c44ca9198d40d88a07bf0882a3148eb9ba7c96f024100e7476f0246e1149dfc2e1b4ab6546e3cac123f3ad1e8" +
		"a7ab4b6f7f4124bb8b882a2c49a79fde3488b2644717b7fce0d85e96f946052ed51e01915d287caa62ef024100d5646d390ea4be58092f218f358c39" +
		"44a2c51619d74e71863625fa5746ec509a00cbb4b861c8b736b19b1767216313718a520a9d2e8f7e68279354cdcf5b4fe7024100d4e66c28f368751b" +
		"2dae9fcef9e2e50b92f6c51ff7652d1bc13865336985ff5f1c3b629e1ccb671ec2e10e94a5f8f25e1b4ced30e8ca80c2bb7cbdfdec2cc91f02404cb3" +
		"f582adddcfc18b4392b78c52e3fee4d71cf39aedca66a8ae0c07352a1a6ad0e0680c62b1a81193d3a09ce4665d85d1675e0353ca2670bfd0f889a600" +
		"377f02401927c9c4606e42b7471de35c5b3439dd0bc17cc12d8a46251a4eefb1899b53b22ce42504f0598853a3905eaa3d29ba42889ea07e8c9d8688" +
		"9f0252aeffcd2da9"}

// certificates of dora@x.org (DSA) and edgar@y.ch (ECDSA), created at 1400000000
const dsaCert = "c6c0e20453724e0011040090d7dd200a81a2d30046a82e9e4236d236a48fb15b9c3bf0fca6dab285b8d7ae95ec0daf9660316da9a191b01ce1bd7121" +
	"70fa0adae2a90f7532b77c81a25ba9da9658c0c02816c087db2a970c5458472d63e0ec143ce3146bcfabf16886e1e2e3c8b7c200e3c6323ced917ceb" +
	"0d5170a43849ecae31e1d7719f3018a7a2e87100a0c5ffc2ddd47bfee7ee96ecafb00aa4914909109903ff67b601227fc295d97e0d29451f128ba9c0" +
	"b56d00ec09101cd500f5c0dd4c5783dd85876504335f40c20f279e674837226d332feaf79cccca4b8da3d163af109d77b30c7989e76c32aa2a6955d9" +
	"6a76052b3ddf09514908dad2f2ceba397d7c418f63839409c8213cef98db2a5a0cd3ada2b5328a2ca3eb7d52e82e43d9997e3c03fd18e481ef7dbfd4" +
	"d7f158a24292a9a760920a453c1b26bc963930659bcfd644415241b189d16bf17c15ae354a0840b05c5bb1cb1274cc41fa9f83e22e0c65312eb43598" +
	"b9f5e4f31b427cec1f0f1bdfec06f4228a0610e5424130c250d09e66c4440a269534ef8b5bca5d6b7ade0d6ce347910356348c9b4ad30c1ee5a05ca2" +
	"d9cd11446f7261203c646f726140782e6f72673ec246041311080010050253724e0009102f97b30aa5f4f4fd0000316100a03f9544591514fccbbc19" +
	"261b5d30c071c2846ace00a044ded9fdd6853a8dd45869e0fdd719b3b17f10a1"

const ecdsaCert = "c6520453724e0013082a8648ce3d030107020304f78011795fe82ad29f0ab01f386bb8f5f5cc1528f885c65301d38984b930c224ab7ef1ca07d7f4eb" +
	"bb62251cc8746c76d8fbeb799184c97ba7777ce4acb5c548cd124564676172203c656467617240792e63683ec25e041313080010050253724e000910" +
	"9f0772803683d07f000092b200ff6bb394259c7c7be7d3fe9dfac03a4093dca056f50188de594a6808b9b5dfe59100fe2fab71e6c8c3218e62cb3ad7" +
	"65968f47011eec11756b74d1e66daec28d3e285e"
