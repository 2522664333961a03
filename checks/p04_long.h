{ 0, 255, 536870989ull, "5c6442e3d35f183677e4c8853c628361005835256bb69eb14da981df4e0ef662", 0 },
{ 0, 1, 16777229ull, "26d5bb52cc6335048274a696cfcd6c9ece8ca8639836c0ae426ad139f1574e89", 0 },
{ 1, 255, 536870989ull, "f9c2cc5719c6ef988a41888a7b388ab0c69e6cf9c4baa67c415fc092e12ba263", 0 },
{ 1, 1, 16777229ull, "8ef1eb9bcb4541f6eddad0321195051ecf9f4cefeb31bd4bb6a375f367a5e978", 0 },
{ 2, 255, 536870989ull, "6337aca69688a18ad64e8fb219035e6a190f8c900caf12d717c03fcc2c507746bcc61d12ce88209bb9bce2a0bcb274d99952dcb9bd895eb7dd9ace74ba771c52", 0 },
{ 2, 1, 16777229ull, "2da7e2895a28d2732b8c8415138c95506ecdabef238757e50fb02b842a3e882ea96a66399ebf12bc94aa0520967aebc11d338c7e506f85fb2b9b4bd4768c7b2d", 0 },
{ 0, 255, 4294967301ull, "c6334f77d54878937b8fc1c68ed0fd8e34926841d17d7359c099ce614e48827c", 1 },
{ 0, 1, 2147483653ull, "cab57cd96e103c0d64623fd663e6a89b2672c88817e04d54ab778d62a63b0533", 1 },
{ 1, 255, 4294967301ull, "5c411772b70bc42a708fd84b3ca1580ec5226f3cd6733f756a23deaaad4a1e10", 1 },
{ 1, 1, 2147483653ull, "c197b813c74ced54be9e262baa7bce4e349356c680f99fa8e5f51aabb056fe04", 1 },
{ 2, 255, 4294967301ull, "6157ee623615351ca442550b0629db1c7dc891e7284cae07e24ae431e1af99a216e8d4627ef260e8abd18ed9f37d6fca5c2c208366878a018b21b5b496a6689b", 1 },
{ 2, 1, 2147483653ull, "33d083ca89c06a53b20897d5e126608261f9b34a7fcafc57e6e24fe2de971d602c5a055d846d5e19f77bf6ee9262268cbee7361c72241e6322f263823ccecedc", 1 },
