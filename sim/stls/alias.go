//go:build go1.25

// Code generated by tools/aliasgen. DO NOT EDIT.

package stls

import "crypto/tls"

type AlertError = tls.AlertError
type Certificate = tls.Certificate
type CertificateRequestInfo = tls.CertificateRequestInfo
type CertificateVerificationError = tls.CertificateVerificationError
type CipherSuite = tls.CipherSuite

var CipherSuiteName = tls.CipherSuiteName
var CipherSuites = tls.CipherSuites
var Client = tls.Client

type ClientAuthType = tls.ClientAuthType
type ClientHelloInfo = tls.ClientHelloInfo
type ClientSessionCache = tls.ClientSessionCache
type ClientSessionState = tls.ClientSessionState
type Config = tls.Config
type Conn = tls.Conn
type ConnectionState = tls.ConnectionState
type CurveID = tls.CurveID

const CurveP256 = tls.CurveP256
const CurveP384 = tls.CurveP384
const CurveP521 = tls.CurveP521
const ECDSAWithP256AndSHA256 = tls.ECDSAWithP256AndSHA256
const ECDSAWithP384AndSHA384 = tls.ECDSAWithP384AndSHA384
const ECDSAWithP521AndSHA512 = tls.ECDSAWithP521AndSHA512
const ECDSAWithSHA1 = tls.ECDSAWithSHA1

type ECHRejectionError = tls.ECHRejectionError

const Ed25519 = tls.Ed25519

type EncryptedClientHelloKey = tls.EncryptedClientHelloKey

var InsecureCipherSuites = tls.InsecureCipherSuites

const MLDSA44 = tls.MLDSA44
const MLDSA65 = tls.MLDSA65
const MLDSA87 = tls.MLDSA87
const MLKEM1024 = tls.MLKEM1024

var NewLRUClientSessionCache = tls.NewLRUClientSessionCache
var NewResumptionState = tls.NewResumptionState

const NoClientCert = tls.NoClientCert
const PKCS1WithSHA1 = tls.PKCS1WithSHA1
const PKCS1WithSHA256 = tls.PKCS1WithSHA256
const PKCS1WithSHA384 = tls.PKCS1WithSHA384
const PKCS1WithSHA512 = tls.PKCS1WithSHA512
const PSSWithSHA256 = tls.PSSWithSHA256
const PSSWithSHA384 = tls.PSSWithSHA384
const PSSWithSHA512 = tls.PSSWithSHA512

var ParseSessionState = tls.ParseSessionState
var QUICClient = tls.QUICClient

type QUICConfig = tls.QUICConfig
type QUICConn = tls.QUICConn
type QUICEncryptionLevel = tls.QUICEncryptionLevel

const QUICEncryptionLevelApplication = tls.QUICEncryptionLevelApplication
const QUICEncryptionLevelEarly = tls.QUICEncryptionLevelEarly
const QUICEncryptionLevelHandshake = tls.QUICEncryptionLevelHandshake
const QUICEncryptionLevelInitial = tls.QUICEncryptionLevelInitial
const QUICErrorEvent = tls.QUICErrorEvent

type QUICEvent = tls.QUICEvent
type QUICEventKind = tls.QUICEventKind

const QUICHandshakeDone = tls.QUICHandshakeDone
const QUICNoEvent = tls.QUICNoEvent
const QUICRejectedEarlyData = tls.QUICRejectedEarlyData
const QUICResumeSession = tls.QUICResumeSession

var QUICServer = tls.QUICServer

type QUICSessionTicketOptions = tls.QUICSessionTicketOptions

const QUICSetReadSecret = tls.QUICSetReadSecret
const QUICSetWriteSecret = tls.QUICSetWriteSecret
const QUICStoreSession = tls.QUICStoreSession
const QUICTransportParameters = tls.QUICTransportParameters
const QUICTransportParametersRequired = tls.QUICTransportParametersRequired
const QUICWriteData = tls.QUICWriteData

type RecordHeaderError = tls.RecordHeaderError

const RenegotiateFreelyAsClient = tls.RenegotiateFreelyAsClient
const RenegotiateNever = tls.RenegotiateNever
const RenegotiateOnceAsClient = tls.RenegotiateOnceAsClient

type RenegotiationSupport = tls.RenegotiationSupport

const RequestClientCert = tls.RequestClientCert
const RequireAndVerifyClientCert = tls.RequireAndVerifyClientCert
const RequireAnyClientCert = tls.RequireAnyClientCert
const SecP256r1MLKEM768 = tls.SecP256r1MLKEM768
const SecP384r1MLKEM1024 = tls.SecP384r1MLKEM1024

var Server = tls.Server

type SessionState = tls.SessionState
type SignatureScheme = tls.SignatureScheme

const TLS_AES_128_GCM_SHA256 = tls.TLS_AES_128_GCM_SHA256
const TLS_AES_256_GCM_SHA384 = tls.TLS_AES_256_GCM_SHA384
const TLS_CHACHA20_POLY1305_SHA256 = tls.TLS_CHACHA20_POLY1305_SHA256
const TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA = tls.TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA
const TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256 = tls.TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256
const TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256 = tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256
const TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA = tls.TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA
const TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384 = tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384
const TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305 = tls.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305
const TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256 = tls.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256
const TLS_ECDHE_ECDSA_WITH_RC4_128_SHA = tls.TLS_ECDHE_ECDSA_WITH_RC4_128_SHA
const TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA = tls.TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA
const TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA = tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA
const TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256 = tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256
const TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256 = tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256
const TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA = tls.TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA
const TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384 = tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384
const TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305 = tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305
const TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 = tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256
const TLS_ECDHE_RSA_WITH_RC4_128_SHA = tls.TLS_ECDHE_RSA_WITH_RC4_128_SHA
const TLS_FALLBACK_SCSV = tls.TLS_FALLBACK_SCSV
const TLS_RSA_WITH_3DES_EDE_CBC_SHA = tls.TLS_RSA_WITH_3DES_EDE_CBC_SHA
const TLS_RSA_WITH_AES_128_CBC_SHA = tls.TLS_RSA_WITH_AES_128_CBC_SHA
const TLS_RSA_WITH_AES_128_CBC_SHA256 = tls.TLS_RSA_WITH_AES_128_CBC_SHA256
const TLS_RSA_WITH_AES_128_GCM_SHA256 = tls.TLS_RSA_WITH_AES_128_GCM_SHA256
const TLS_RSA_WITH_AES_256_CBC_SHA = tls.TLS_RSA_WITH_AES_256_CBC_SHA
const TLS_RSA_WITH_AES_256_GCM_SHA384 = tls.TLS_RSA_WITH_AES_256_GCM_SHA384
const TLS_RSA_WITH_RC4_128_SHA = tls.TLS_RSA_WITH_RC4_128_SHA
const VerifyClientCertIfGiven = tls.VerifyClientCertIfGiven

var VersionName = tls.VersionName

const VersionSSL30 = tls.VersionSSL30
const VersionTLS10 = tls.VersionTLS10
const VersionTLS11 = tls.VersionTLS11
const VersionTLS12 = tls.VersionTLS12
const VersionTLS13 = tls.VersionTLS13
const X25519 = tls.X25519
const X25519MLKEM768 = tls.X25519MLKEM768

var X509KeyPair = tls.X509KeyPair
