// every identifier the library declares with a name (T(enumeration, converter, identifiers...))
#include "AeadModes.h"
#include "AsymmetricCiphers.h"
#include "AsymmetricParameters.h"
#include "AsymmetricPrimitives.h"
#include "AsymmetricSigners.h"
#include "BlockCiphers.h"
#include "CipherModes.h"
#include "Digests.h"
#include "DilithiumParameters.h"
#include "Drbgs.h"
#include "ECDHParameters.h"
#include "ECDSAParameters.h"
#include "ExceptionTypes.h"
#include "Kdfs.h"
#include "KmacModes.h"
#include "Kms.h"
#include "KpaModes.h"
#include "KyberParameters.h"
#include "Macs.h"
#include "McElieceParameters.h"
#include "PaddingModes.h"
#include "Prngs.h"
#include "Providers.h"
#include "SHA2Digests.h"
#include "SecurityPolicy.h"
#include "ShakeModes.h"
#include "SphincsPlusParameters.h"
#include "StreamAuthenticators.h"
#include "StreamCiphers.h"
#include "SymmetricCiphers.h"
#include "ThreefishModes.h"
#include "XmssParameters.h"
#define NAMED(T) \
	T(AeadModes, AeadModeConvert, AeadModes::GCM, AeadModes::HBA, AeadModes::HBAH256, AeadModes::HBAH512, AeadModes::HBAS256, AeadModes::HBAS512) \
	T(AsymmetricCiphers, AsymmetricCipherConvert, AsymmetricCiphers::Kyber, AsymmetricCiphers::McEliece, AsymmetricCiphers::ECDH) \
	T(AsymmetricParameters, AsymmetricTransformConvert, AsymmetricParameters::DLTMS1P2544, AsymmetricParameters::DLTMS3P4016, AsymmetricParameters::DLTMS5P4880, AsymmetricParameters::ECDHS1P25519K, AsymmetricParameters::ECDHS2P25519S, AsymmetricParameters::ECDSAS1P25519K, AsymmetricParameters::ECDSAS2P25519S, AsymmetricParameters::KYBERS1P1632, AsymmetricParameters::KYBERS3P2400, AsymmetricParameters::KYBERS5P3168, AsymmetricParameters::KYBERS6P3936, AsymmetricParameters::MPKCS3N4608T96, AsymmetricParameters::MPKCS3N6960T119, AsymmetricParameters::MPKCS4N6688T128, AsymmetricParameters::MPKCS5N8192T128, AsymmetricParameters::SPXPS1S128SHAKE, AsymmetricParameters::SPXPS3S192SHAKE, AsymmetricParameters::SPXPS5S256SHAKE, AsymmetricParameters::SPXPS6S512SHAKE, AsymmetricParameters::XMSSSHA2256H10, AsymmetricParameters::XMSSSHA2256H16, AsymmetricParameters::XMSSSHA2256H20, AsymmetricParameters::XMSSSHA2512H10, AsymmetricParameters::XMSSSHA2512H16, AsymmetricParameters::XMSSSHA2512H20, AsymmetricParameters::XMSSSHAKE256H10, AsymmetricParameters::XMSSSHAKE256H16, AsymmetricParameters::XMSSSHAKE256H20, AsymmetricParameters::XMSSSHAKE512H10, AsymmetricParameters::XMSSSHAKE512H16, AsymmetricParameters::XMSSSHAKE512H20, AsymmetricParameters::XMSSMTSHA2256H20D2, AsymmetricParameters::XMSSMTSHA2256H20D4, AsymmetricParameters::XMSSMTSHA2256H40D2, AsymmetricParameters::XMSSMTSHA2256H40D4, AsymmetricParameters::XMSSMTSHA2256H40D8, AsymmetricParameters::XMSSMTSHA2256H60D3, AsymmetricParameters::XMSSMTSHA2256H60D6, AsymmetricParameters::XMSSMTSHA2256H60D12, AsymmetricParameters::XMSSMTSHA2512H20D2, AsymmetricParameters::XMSSMTSHA2512H20D4, AsymmetricParameters::XMSSMTSHA2512H40D2, AsymmetricParameters::XMSSMTSHA2512H40D4, AsymmetricParameters::XMSSMTSHA2512H40D8, AsymmetricParameters::XMSSMTSHA2512H60D3, AsymmetricParameters::XMSSMTSHA2512H60D6, AsymmetricParameters::XMSSMTSHA2512H60D12, AsymmetricParameters::XMSSMTSHAKE256H20D2, AsymmetricParameters::XMSSMTSHAKE256H20D4, AsymmetricParameters::XMSSMTSHAKE256H40D2, AsymmetricParameters::XMSSMTSHAKE256H40D4, AsymmetricParameters::XMSSMTSHAKE256H40D8, AsymmetricParameters::XMSSMTSHAKE256H60D3, AsymmetricParameters::XMSSMTSHAKE256H60D6, AsymmetricParameters::XMSSMTSHAKE256H60D12, AsymmetricParameters::XMSSMTSHAKE512H20D2, AsymmetricParameters::XMSSMTSHAKE512H20D4, AsymmetricParameters::XMSSMTSHAKE512H40D2, AsymmetricParameters::XMSSMTSHAKE512H40D4, AsymmetricParameters::XMSSMTSHAKE512H40D8, AsymmetricParameters::XMSSMTSHAKE512H60D3, AsymmetricParameters::XMSSMTSHAKE512H60D6, AsymmetricParameters::XMSSMTSHAKE512H60D12) \
	T(AsymmetricPrimitives, AsymmetricPrimitiveConvert, AsymmetricPrimitives::ECDH, AsymmetricPrimitives::Kyber, AsymmetricPrimitives::McEliece, AsymmetricPrimitives::Dilithium, AsymmetricPrimitives::ECDSA, AsymmetricPrimitives::SphincsPlus, AsymmetricPrimitives::XMSS, AsymmetricPrimitives::XMSSMT) \
	T(AsymmetricSigners, AsymmetricSignerConvert, AsymmetricSigners::Dilithium, AsymmetricSigners::ECDSA, AsymmetricSigners::SphincsPlus, AsymmetricSigners::XMSS, AsymmetricSigners::XMSSMT) \
	T(BlockCiphers, BlockCipherConvert, BlockCiphers::AES, BlockCiphers::Serpent, BlockCiphers::RHXH256, BlockCiphers::RHXH512, BlockCiphers::RHXS256, BlockCiphers::RHXS512, BlockCiphers::SHXH256, BlockCiphers::SHXH512, BlockCiphers::SHXS256, BlockCiphers::SHXS512) \
	T(CipherModes, CipherModeConvert, CipherModes::ACM, CipherModes::CBC, CipherModes::CFB, CipherModes::CTR, CipherModes::ECB, CipherModes::GCM, CipherModes::HBA, CipherModes::HBAH256, CipherModes::HBAH512, CipherModes::HBAS256, CipherModes::HBAS512, CipherModes::ICM, CipherModes::OFB) \
	T(Digests, DigestConvert, Digests::Blake256, Digests::Blake512, Digests::SHA3256, Digests::SHA3512, Digests::SHA2256, Digests::SHA2512, Digests::SHAKE128, Digests::SHAKE256, Digests::SHAKE512, Digests::Skein256, Digests::Skein512, Digests::Skein1024) \
	T(DilithiumParameters, DilithiumParameterConvert, DilithiumParameters::DLTMS1P2544, DilithiumParameters::DLTMS3P4016, DilithiumParameters::DLTMS5P4880) \
	T(Drbgs, DrbgConvert, Drbgs::BCG, Drbgs::CSG, Drbgs::HCG) \
	T(ECDHParameters, ECDHParameterConvert, ECDHParameters::ECDHS1P25519K, ECDHParameters::ECDHS2P25519S) \
	T(ECDSAParameters, ECDSAParameterConvert, ECDSAParameters::ECDSAS1P25519K, ECDSAParameters::ECDSAS2P25519S) \
	T(ExceptionTypes, ExceptionTypeConvert, ExceptionTypes::CryptoAsymmetricException, ExceptionTypes::CryptoAuthenticationFailure, ExceptionTypes::CryptoCipherModeException, ExceptionTypes::CryptoDigestException, ExceptionTypes::CryptoException, ExceptionTypes::CryptoGeneratorException, ExceptionTypes::CryptoKdfException, ExceptionTypes::CryptoKmsException, ExceptionTypes::CryptoMacException, ExceptionTypes::CryptoPaddingException, ExceptionTypes::CryptoProcessingException, ExceptionTypes::CryptoRandomException, ExceptionTypes::CryptoSymmetricException) \
	T(Kdfs, KdfConvert, Kdfs::HKDS512, Kdfs::HKDF256, Kdfs::HKDF512, Kdfs::KDF2256, Kdfs::KDF2512, Kdfs::PBKDF2256, Kdfs::PBKDF2512, Kdfs::SHAKE128, Kdfs::SHAKE256, Kdfs::SHAKE512, Kdfs::SCBKDF128, Kdfs::SCBKDF256, Kdfs::SCBKDF512, Kdfs::SCBKDF1024, Kdfs::HKDS128, Kdfs::HKDS256) \
	T(KmacModes, KmacModeConvert, KmacModes::KMAC128, KmacModes::KMAC256, KmacModes::KMAC512) \
	T(Kms, KmsConvert, Kms::HKDS128, Kms::HKDS256, Kms::HKDS512) \
	T(KpaModes, KbaModeConvert, KpaModes::KPA128, KpaModes::KPA256, KpaModes::KPA512) \
	T(KyberParameters, KyberParameterConvert, KyberParameters::KYBERS1P1632, KyberParameters::KYBERS3P2400, KyberParameters::KYBERS5P3168, KyberParameters::KYBERS6P3936) \
	T(Macs, MacConvert, Macs::CMAC, Macs::CMACRHXH256, Macs::CMACRHXH512, Macs::CMACRHXS256, Macs::CMACRHXS512, Macs::GMAC, Macs::GMACRHXH256, Macs::GMACRHXH512, Macs::GMACRHXS256, Macs::GMACRHXS512, Macs::HMACSHA2256, Macs::HMACSHA2512, Macs::KPA128, Macs::KPA256, Macs::KPA512, Macs::KMAC128, Macs::KMAC256, Macs::KMAC512, Macs::Poly1305) \
	T(McElieceParameters, McElieceParameterConvert, McElieceParameters::MPKCS3N4608T96, McElieceParameters::MPKCS3N6960T119, McElieceParameters::MPKCS4N6688T128, McElieceParameters::MPKCS5N8192T128) \
	T(PaddingModes, PaddingModeConvert, PaddingModes::ESP, PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ZeroOne) \
	T(Prngs, PrngConvert, Prngs::BCR, Prngs::CSR, Prngs::CSRC512, Prngs::CSRC1024, Prngs::HCR, Prngs::HCRS512) \
	T(Providers, ProviderConvert, Providers::ACP, Providers::CJP, Providers::CSP, Providers::ECP, Providers::RDP) \
	T(SHA2Digests, SHA2DigestConvert, SHA2Digests::SHA2256, SHA2Digests::SHA2512) \
	T(SecurityPolicy, SecurityPolicyConvert, SecurityPolicy::SPL256, SecurityPolicy::SPL256AE, SecurityPolicy::SPL512, SecurityPolicy::SPL512AE, SecurityPolicy::SPL1024, SecurityPolicy::SPL1024AE) \
	T(ShakeModes, ShakeModeConvert, ShakeModes::SHAKE128, ShakeModes::SHAKE256, ShakeModes::SHAKE512) \
	T(SphincsPlusParameters, SphincsPlusParameterConvert, SphincsPlusParameters::SPXPS1S128SHAKE, SphincsPlusParameters::SPXPS3S192SHAKE, SphincsPlusParameters::SPXPS5S256SHAKE, SphincsPlusParameters::SPXPS6S512SHAKE) \
	T(StreamAuthenticators, StreamAuthenticatorConvert, StreamAuthenticators::KPA, StreamAuthenticators::KMAC, StreamAuthenticators::HMACSHA2256, StreamAuthenticators::HMACSHA2512, StreamAuthenticators::KMAC256, StreamAuthenticators::KMAC512, StreamAuthenticators::Poly1305) \
	T(StreamCiphers, StreamCipherConvert, StreamCiphers::ChaChaP20, StreamCiphers::CSXR20K256, StreamCiphers::CSX512, StreamCiphers::CSXR80K512, StreamCiphers::RCS, StreamCiphers::RCSK256, StreamCiphers::RCSK512, StreamCiphers::RCSK1024, StreamCiphers::RWS, StreamCiphers::RWSK256, StreamCiphers::RWSK512, StreamCiphers::RWSK1024, StreamCiphers::TSX256, StreamCiphers::TSXR72K256, StreamCiphers::TSX512, StreamCiphers::TSXR96K512, StreamCiphers::TSX1024, StreamCiphers::TSXR120K512) \
	T(SymmetricCiphers, SymmetricCipherConvert, SymmetricCiphers::AES, SymmetricCiphers::Serpent, SymmetricCiphers::RHXH256, SymmetricCiphers::RHXH512, SymmetricCiphers::RHXS256, SymmetricCiphers::RHXS512, SymmetricCiphers::SHXH256, SymmetricCiphers::SHXH512, SymmetricCiphers::SHXS256, SymmetricCiphers::SHXS512, SymmetricCiphers::ChaChaP20, SymmetricCiphers::CSXR20K256, SymmetricCiphers::CSX512, SymmetricCiphers::CSXR80K512, SymmetricCiphers::RCS, SymmetricCiphers::RCSK256, SymmetricCiphers::RCSK512, SymmetricCiphers::RCSK1024, SymmetricCiphers::RWS, SymmetricCiphers::RWSK256, SymmetricCiphers::RWSK512, SymmetricCiphers::RWSK1024, SymmetricCiphers::TSX256, SymmetricCiphers::TSXR72K256, SymmetricCiphers::TSX512, SymmetricCiphers::TSXR96K512, SymmetricCiphers::TSX1024, SymmetricCiphers::TSXR120K512) \
	T(ThreefishModes, ThreefishModeConvert, ThreefishModes::TSX256, ThreefishModes::TSXR72K256, ThreefishModes::TSX512, ThreefishModes::TSXR96K512, ThreefishModes::TSX1024, ThreefishModes::TSXR120K512) \
	T(XmssParameters, XmssParameterConvert, XmssParameters::XMSSSHA2256H10, XmssParameters::XMSSSHA2256H16, XmssParameters::XMSSSHA2256H20, XmssParameters::XMSSSHA2512H10, XmssParameters::XMSSSHA2512H16, XmssParameters::XMSSSHA2512H20, XmssParameters::XMSSSHAKE256H10, XmssParameters::XMSSSHAKE256H16, XmssParameters::XMSSSHAKE256H20, XmssParameters::XMSSSHAKE512H10, XmssParameters::XMSSSHAKE512H16, XmssParameters::XMSSSHAKE512H20, XmssParameters::XMSSMTSHA2256H20D2, XmssParameters::XMSSMTSHA2256H20D4, XmssParameters::XMSSMTSHA2256H40D2, XmssParameters::XMSSMTSHA2256H40D4, XmssParameters::XMSSMTSHA2256H40D8, XmssParameters::XMSSMTSHA2256H60D3, XmssParameters::XMSSMTSHA2256H60D6, XmssParameters::XMSSMTSHA2256H60D12, XmssParameters::XMSSMTSHA2512H20D2, XmssParameters::XMSSMTSHA2512H20D4, XmssParameters::XMSSMTSHA2512H40D2, XmssParameters::XMSSMTSHA2512H40D4, XmssParameters::XMSSMTSHA2512H40D8, XmssParameters::XMSSMTSHA2512H60D3, XmssParameters::XMSSMTSHA2512H60D6, XmssParameters::XMSSMTSHA2512H60D12, XmssParameters::XMSSMTSHAKE256H20D2, XmssParameters::XMSSMTSHAKE256H20D4, XmssParameters::XMSSMTSHAKE256H40D2, XmssParameters::XMSSMTSHAKE256H40D4, XmssParameters::XMSSMTSHAKE256H40D8, XmssParameters::XMSSMTSHAKE256H60D3, XmssParameters::XMSSMTSHAKE256H60D6, XmssParameters::XMSSMTSHAKE256H60D12, XmssParameters::XMSSMTSHAKE512H20D2, XmssParameters::XMSSMTSHAKE512H20D4, XmssParameters::XMSSMTSHAKE512H40D2, XmssParameters::XMSSMTSHAKE512H40D4, XmssParameters::XMSSMTSHAKE512H40D8, XmssParameters::XMSSMTSHAKE512H60D3, XmssParameters::XMSSMTSHAKE512H60D6, XmssParameters::XMSSMTSHAKE512H60D12) \

