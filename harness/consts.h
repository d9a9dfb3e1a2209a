// modulus constants (value, value-2, R mod m, R^2 mod m), limbs little-endian; derived from the standards
#ifdef X64
static const L C_p2[4][4] = {{0xffffffffffffffffULL,0xffffffff00000000ULL,0xffffffffffffffffULL,0xfffffffeffffffffULL},{0xfffffffffffffffdULL,0xffffffff00000000ULL,0xffffffffffffffffULL,0xfffffffeffffffffULL},{0x1ULL,0xffffffffULL,0x0ULL,0x100000000ULL},{0x200000003ULL,0x2ffffffffULL,0x100000001ULL,0x400000002ULL}};
static const L C_n2[4][4] = {{0x53bbf40939d54123ULL,0x7203df6b21c6052bULL,0xffffffffffffffffULL,0xfffffffeffffffffULL},{0x53bbf40939d54121ULL,0x7203df6b21c6052bULL,0xffffffffffffffffULL,0xfffffffeffffffffULL},{0xac440bf6c62abeddULL,0x8dfc2094de39fad4ULL,0x0ULL,0x100000000ULL},{0x901192af7c114f20ULL,0x3464504ade6fa2faULL,0x620fc84c3affe0d4ULL,0x1eb5e412a22b3d3bULL}};
static const L C_p9[4][4] = {{0xe56f9b27e351457dULL,0x21f2934b1a7aeedbULL,0xd603ab4ff58ec745ULL,0xb640000002a3a6f1ULL},{0xe56f9b27e351457bULL,0x21f2934b1a7aeedbULL,0xd603ab4ff58ec745ULL,0xb640000002a3a6f1ULL},{0x1a9064d81caeba83ULL,0xde0d6cb4e5851124ULL,0x29fc54b00a7138baULL,0x49bffffffd5c590eULL},{0x27dea312b417e2d2ULL,0x88f8105fae1a5d3fULL,0xe479b522d6706e7bULL,0x2ea795a656f62fbdULL}};
static const L C_n9[4][4] = {{0xe56ee19cd69ecf25ULL,0x49f2934b18ea8beeULL,0xd603ab4ff58ec744ULL,0xb640000002a3a6f1ULL},{0xe56ee19cd69ecf23ULL,0x49f2934b18ea8beeULL,0xd603ab4ff58ec744ULL,0xb640000002a3a6f1ULL},{0x1a911e63296130dbULL,0xb60d6cb4e7157411ULL,0x29fc54b00a7138bbULL,0x49bffffffd5c590eULL},{0x7598cd79cd750c35ULL,0xe4a08110bb6daeabULL,0xbfee4bae7d78a1f9ULL,0x8894f5d163695d0eULL}};
#else
static const L C_p2[4][8] = {{0xffffffffULL,0xffffffffULL,0x0ULL,0xffffffffULL,0xffffffffULL,0xffffffffULL,0xffffffffULL,0xfffffffeULL},{0xfffffffdULL,0xffffffffULL,0x0ULL,0xffffffffULL,0xffffffffULL,0xffffffffULL,0xffffffffULL,0xfffffffeULL},{0x1ULL,0x0ULL,0xffffffffULL,0x0ULL,0x0ULL,0x0ULL,0x0ULL,0x1ULL},{0x3ULL,0x2ULL,0xffffffffULL,0x2ULL,0x1ULL,0x1ULL,0x2ULL,0x4ULL}};
static const L C_n2[4][8] = {{0x39d54123ULL,0x53bbf409ULL,0x21c6052bULL,0x7203df6bULL,0xffffffffULL,0xffffffffULL,0xffffffffULL,0xfffffffeULL},{0x39d54121ULL,0x53bbf409ULL,0x21c6052bULL,0x7203df6bULL,0xffffffffULL,0xffffffffULL,0xffffffffULL,0xfffffffeULL},{0xc62abeddULL,0xac440bf6ULL,0xde39fad4ULL,0x8dfc2094ULL,0x0ULL,0x0ULL,0x0ULL,0x1ULL},{0x7c114f20ULL,0x901192afULL,0xde6fa2faULL,0x3464504aULL,0x3affe0d4ULL,0x620fc84cULL,0xa22b3d3bULL,0x1eb5e412ULL}};
static const L C_p9[4][8] = {{0xe351457dULL,0xe56f9b27ULL,0x1a7aeedbULL,0x21f2934bULL,0xf58ec745ULL,0xd603ab4fULL,0x2a3a6f1ULL,0xb6400000ULL},{0xe351457bULL,0xe56f9b27ULL,0x1a7aeedbULL,0x21f2934bULL,0xf58ec745ULL,0xd603ab4fULL,0x2a3a6f1ULL,0xb6400000ULL},{0x1caeba83ULL,0x1a9064d8ULL,0xe5851124ULL,0xde0d6cb4ULL,0xa7138baULL,0x29fc54b0ULL,0xfd5c590eULL,0x49bfffffULL},{0xb417e2d2ULL,0x27dea312ULL,0xae1a5d3fULL,0x88f8105fULL,0xd6706e7bULL,0xe479b522ULL,0x56f62fbdULL,0x2ea795a6ULL}};
static const L C_n9[4][8] = {{0xd69ecf25ULL,0xe56ee19cULL,0x18ea8beeULL,0x49f2934bULL,0xf58ec744ULL,0xd603ab4fULL,0x2a3a6f1ULL,0xb6400000ULL},{0xd69ecf23ULL,0xe56ee19cULL,0x18ea8beeULL,0x49f2934bULL,0xf58ec744ULL,0xd603ab4fULL,0x2a3a6f1ULL,0xb6400000ULL},{0x296130dbULL,0x1a911e63ULL,0xe7157411ULL,0xb60d6cb4ULL,0xa7138bbULL,0x29fc54b0ULL,0xfd5c590eULL,0x49bfffffULL},{0xcd750c35ULL,0x7598cd79ULL,0xbb6daeabULL,0xe4a08110ULL,0x7d78a1f9ULL,0xbfee4baeULL,0x63695d0eULL,0x8894f5d1ULL}};
#endif
