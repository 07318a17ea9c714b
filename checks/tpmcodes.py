"""TPM 2.0 command and response codes, after Part 2 of the library specification (revision 0.96)."""
COMMANDS = {
    "TPM_CC_NV_UndefineSpaceSpecial": 0x11F,
    "TPM_CC_EvictControl": 0x120,
    "TPM_CC_HierarchyControl": 0x121,
    "TPM_CC_NV_UndefineSpace": 0x122,
    "TPM_CC_ChangeEPS": 0x124,
    "TPM_CC_ChangePPS": 0x125,
    "TPM_CC_Clear": 0x126,
    "TPM_CC_ClearControl": 0x127,
    "TPM_CC_ClockSet": 0x128,
    "TPM_CC_HierarchyChangeAuth": 0x129,
    "TPM_CC_NV_DefineSpace": 0x12A,
    "TPM_CC_PCR_Allocate": 0x12B,
    "TPM_CC_PCR_SetAuthPolicy": 0x12C,
    "TPM_CC_PP_Commands": 0x12D,
    "TPM_CC_SetPrimaryPolicy": 0x12E,
    "TPM_CC_FieldUpgradeStart": 0x12F,
    "TPM_CC_ClockRateAdjust": 0x130,
    "TPM_CC_CreatePrimary": 0x131,
    "TPM_CC_NV_GlobalWriteLock": 0x132,
    "TPM_CC_GetCommandAuditDigest": 0x133,
    "TPM_CC_NV_Increment": 0x134,
    "TPM_CC_NV_SetBits": 0x135,
    "TPM_CC_NV_Extend": 0x136,
    "TPM_CC_NV_Write": 0x137,
    "TPM_CC_NV_WriteLock": 0x138,
    "TPM_CC_DictionaryAttackLockReset": 0x139,
    "TPM_CC_DictionaryAttackParameters": 0x13A,
    "TPM_CC_NV_ChangeAuth": 0x13B,
    "TPM_CC_PCR_Event": 0x13C,
    "TPM_CC_PCR_Reset": 0x13D,
    "TPM_CC_SequenceComplete": 0x13E,
    "TPM_CC_SetAlgorithmSet": 0x13F,
    "TPM_CC_SetCommandCodeAuditStatus": 0x140,
    "TPM_CC_FieldUpgradeData": 0x141,
    "TPM_CC_IncrementalSelfTest": 0x142,
    "TPM_CC_SelfTest": 0x143,
    "TPM_CC_Startup": 0x144,
    "TPM_CC_Shutdown": 0x145,
    "TPM_CC_StirRandom": 0x146,
    "TPM_CC_ActivateCredential": 0x147,
    "TPM_CC_Certify": 0x148,
    "TPM_CC_PolicyNV": 0x149,
    "TPM_CC_CertifyCreation": 0x14A,
    "TPM_CC_Duplicate": 0x14B,
    "TPM_CC_GetTime": 0x14C,
    "TPM_CC_GetSessionAuditDigest": 0x14D,
    "TPM_CC_NV_Read": 0x14E,
    "TPM_CC_NV_ReadLock": 0x14F,
    "TPM_CC_ObjectChangeAuth": 0x150,
    "TPM_CC_PolicySecret": 0x151,
    "TPM_CC_Rewrap": 0x152,
    "TPM_CC_Create": 0x153,
    "TPM_CC_ECDH_ZGen": 0x154,
    "TPM_CC_HMAC": 0x155,
    "TPM_CC_Import": 0x156,
    "TPM_CC_Load": 0x157,
    "TPM_CC_Quote": 0x158,
    "TPM_CC_RSA_Decrypt": 0x159,
    "TPM_CC_HMAC_Start": 0x15B,
    "TPM_CC_SequenceUpdate": 0x15C,
    "TPM_CC_Sign": 0x15D,
    "TPM_CC_Unseal": 0x15E,
    "TPM_CC_PolicySigned": 0x160,
    "TPM_CC_ContextLoad": 0x161,
    "TPM_CC_ContextSave": 0x162,
    "TPM_CC_ECDH_KeyGen": 0x163,
    "TPM_CC_EncryptDecrypt": 0x164,
    "TPM_CC_FlushContext": 0x165,
    "TPM_CC_LoadExternal": 0x167,
    "TPM_CC_MakeCredential": 0x168,
    "TPM_CC_NV_ReadPublic": 0x169,
    "TPM_CC_PolicyAuthorize": 0x16A,
    "TPM_CC_PolicyAuthValue": 0x16B,
    "TPM_CC_PolicyCommandCode": 0x16C,
    "TPM_CC_PolicyCounterTimer": 0x16D,
    "TPM_CC_PolicyCpHash": 0x16E,
    "TPM_CC_PolicyLocality": 0x16F,
    "TPM_CC_PolicyNameHash": 0x170,
    "TPM_CC_PolicyOR": 0x171,
    "TPM_CC_PolicyTicket": 0x172,
    "TPM_CC_ReadPublic": 0x173,
    "TPM_CC_RSA_Encrypt": 0x174,
    "TPM_CC_StartAuthSession": 0x176,
    "TPM_CC_VerifySignature": 0x177,
    "TPM_CC_ECC_Parameters": 0x178,
    "TPM_CC_FirmwareRead": 0x179,
    "TPM_CC_GetCapability": 0x17A,
    "TPM_CC_GetRandom": 0x17B,
    "TPM_CC_GetTestResult": 0x17C,
    "TPM_CC_Hash": 0x17D,
    "TPM_CC_PCR_Read": 0x17E,
    "TPM_CC_PolicyPCR": 0x17F,
    "TPM_CC_PolicyRestart": 0x180,
    "TPM_CC_ReadClock": 0x181,
    "TPM_CC_PCR_Extend": 0x182,
    "TPM_CC_PCR_SetAuthValue": 0x183,
    "TPM_CC_NV_Certify": 0x184,
    "TPM_CC_EventSequenceComplete": 0x185,
    "TPM_CC_HashSequenceStart": 0x186,
    "TPM_CC_PolicyPhysicalPresence": 0x187,
    "TPM_CC_PolicyDuplicationSelect": 0x188,
    "TPM_CC_PolicyGetDigest": 0x189,
    "TPM_CC_TestParms": 0x18A,
    "TPM_CC_Commit": 0x18B,
    "TPM_CC_PolicyPassword": 0x18C,
    "TPM_CC_ZGen_2Phase": 0x18D,
    "TPM_CC_EC_Ephemeral": 0x18E,
}

FORMAT0 = {
    0x00: "TPM_RC_INITIALIZE",
    0x01: "TPM_RC_FAILURE",
    0x03: "TPM_RC_SEQUENCE",
    0x0B: "TPM_RC_PRIVATE",
    0x19: "TPM_RC_HMAC",
    0x20: "TPM_RC_DISABLED",
    0x21: "TPM_RC_EXCLUSIVE",
    0x24: "TPM_RC_AUTH_TYPE",
    0x25: "TPM_RC_AUTH_MISSING",
    0x26: "TPM_RC_POLICY",
    0x27: "TPM_RC_PCR",
    0x28: "TPM_RC_PCR_CHANGED",
    0x2D: "TPM_RC_UPGRADE",
    0x2E: "TPM_RC_TOO_MANY_CONTEXTS",
    0x2F: "TPM_RC_AUTH_UNAVAILABLE",
    0x30: "TPM_RC_REBOOT",
    0x31: "TPM_RC_UNBALANCED",
    0x42: "TPM_RC_COMMAND_SIZE",
    0x43: "TPM_RC_COMMAND_CODE",
    0x44: "TPM_RC_AUTHSIZE",
    0x45: "TPM_RC_AUTH_CONTEXT",
    0x46: "TPM_RC_NV_RANGE",
    0x47: "TPM_RC_NV_SIZE",
    0x48: "TPM_RC_NV_LOCKED",
    0x49: "TPM_RC_NV_AUTHORIZATION",
    0x4A: "TPM_RC_NV_UNINITIALIZED",
    0x4B: "TPM_RC_NV_SPACE",
    0x4C: "TPM_RC_NV_DEFINED",
    0x50: "TPM_RC_BAD_CONTEXT",
    0x51: "TPM_RC_CPHASH",
    0x52: "TPM_RC_PARENT",
    0x53: "TPM_RC_NEEDS_TEST",
    0x54: "TPM_RC_NO_RESULT",
    0x55: "TPM_RC_SENSITIVE",
}

FORMAT1 = {
    0x01: "TPM_RC_ASYMMETRIC",
    0x02: "TPM_RC_ATTRIBUTES",
    0x03: "TPM_RC_HASH",
    0x04: "TPM_RC_VALUE",
    0x05: "TPM_RC_HIERARCHY",
    0x07: "TPM_RC_KEY_SIZE",
    0x08: "TPM_RC_MGF",
    0x09: "TPM_RC_MODE",
    0x0A: "TPM_RC_TYPE",
    0x0B: "TPM_RC_HANDLE",
    0x0C: "TPM_RC_KDF",
    0x0D: "TPM_RC_RANGE",
    0x0E: "TPM_RC_AUTH_FAIL",
    0x0F: "TPM_RC_NONCE",
    0x10: "TPM_RC_PP",
    0x12: "TPM_RC_SCHEME",
    0x15: "TPM_RC_SIZE",
    0x16: "TPM_RC_SYMMETRIC",
    0x17: "TPM_RC_TAG",
    0x18: "TPM_RC_SELECTOR",
    0x1A: "TPM_RC_INSUFFICIENT",
    0x1B: "TPM_RC_SIGNATURE",
    0x1C: "TPM_RC_KEY",
    0x1D: "TPM_RC_POLICY_FAIL",
    0x1F: "TPM_RC_INTEGRITY",
    0x20: "TPM_RC_TICKET",
    0x21: "TPM_RC_RESERVED_BITS",
    0x22: "TPM_RC_BAD_AUTH",
    0x23: "TPM_RC_EXPIRED",
    0x24: "TPM_RC_POLICY_CC",
    0x25: "TPM_RC_BINDING",
    0x26: "TPM_RC_CURVE",
    0x27: "TPM_RC_ECC_POINT",
}

WARNINGS = {
    0x01: "TPM_RC_CONTEXT_GAP",
    0x02: "TPM_RC_OBJECT_MEMORY",
    0x03: "TPM_RC_SESSION_MEMORY",
    0x04: "TPM_RC_MEMORY",
    0x05: "TPM_RC_SESSION_HANDLES",
    0x06: "TPM_RC_OBJECT_HANDLES",
    0x07: "TPM_RC_LOCALITY",
    0x08: "TPM_RC_YIELDED",
    0x09: "TPM_RC_CANCELED",
    0x0A: "TPM_RC_TESTING",
    0x10: "TPM_RC_REFERENCE_H0",
    0x11: "TPM_RC_REFERENCE_H1",
    0x12: "TPM_RC_REFERENCE_H2",
    0x13: "TPM_RC_REFERENCE_H3",
    0x14: "TPM_RC_REFERENCE_H4",
    0x15: "TPM_RC_REFERENCE_H5",
    0x16: "TPM_RC_REFERENCE_H6",
    0x18: "TPM_RC_REFERENCE_S0",
    0x19: "TPM_RC_REFERENCE_S1",
    0x1A: "TPM_RC_REFERENCE_S2",
    0x1B: "TPM_RC_REFERENCE_S3",
    0x1C: "TPM_RC_REFERENCE_S4",
    0x1D: "TPM_RC_REFERENCE_S5",
    0x1E: "TPM_RC_REFERENCE_S6",
    0x20: "TPM_RC_NV_RATE",
    0x21: "TPM_RC_LOCKOUT",
    0x22: "TPM_RC_RETRY",
    0x23: "TPM_RC_NV_UNAVAILABLE",
}
