//go:build go1.25

// Code generated by tools/aliasgen. DO NOT EDIT.

package shttp

import "net/http"

var AllowQuerySemicolons = http.AllowQuerySemicolons
var CanonicalHeaderKey = http.CanonicalHeaderKey

type Client = http.Client
type ClientConn = http.ClientConn
type CloseNotifier = http.CloseNotifier
type ConnState = http.ConnState
type Cookie = http.Cookie
type CookieJar = http.CookieJar
type CrossOriginProtection = http.CrossOriginProtection

const DefaultMaxHeaderBytes = http.DefaultMaxHeaderBytes
const DefaultMaxHeaderValueCount = http.DefaultMaxHeaderValueCount
const DefaultMaxIdleConnsPerHost = http.DefaultMaxIdleConnsPerHost

var DefaultServeMux = http.DefaultServeMux
var DetectContentType = http.DetectContentType

type Dir = http.Dir

var ErrAbortHandler = http.ErrAbortHandler
var ErrBodyNotAllowed = http.ErrBodyNotAllowed
var ErrBodyReadAfterClose = http.ErrBodyReadAfterClose
var ErrContentLength = http.ErrContentLength
var ErrHandlerTimeout = http.ErrHandlerTimeout
var ErrHeaderTooLong = http.ErrHeaderTooLong
var ErrHijacked = http.ErrHijacked
var ErrLineTooLong = http.ErrLineTooLong
var ErrMissingBoundary = http.ErrMissingBoundary
var ErrMissingContentLength = http.ErrMissingContentLength
var ErrMissingFile = http.ErrMissingFile
var ErrNoCookie = http.ErrNoCookie
var ErrNoLocation = http.ErrNoLocation
var ErrNotMultipart = http.ErrNotMultipart
var ErrNotSupported = http.ErrNotSupported
var ErrSchemeMismatch = http.ErrSchemeMismatch
var ErrServerClosed = http.ErrServerClosed
var ErrShortBody = http.ErrShortBody
var ErrSkipAltProtocol = http.ErrSkipAltProtocol
var ErrUnexpectedTrailer = http.ErrUnexpectedTrailer
var ErrUseLastResponse = http.ErrUseLastResponse
var ErrWriteAfterFlush = http.ErrWriteAfterFlush
var Error = http.Error
var FS = http.FS

type File = http.File

var FileServer = http.FileServer
var FileServerFS = http.FileServerFS

type FileSystem = http.FileSystem
type Flusher = http.Flusher
type HTTP2Config = http.HTTP2Config

var Handle = http.Handle
var HandleFunc = http.HandleFunc

type Handler = http.Handler
type HandlerFunc = http.HandlerFunc
type Header = http.Header
type Hijacker = http.Hijacker

var LocalAddrContextKey = http.LocalAddrContextKey

type MaxBytesError = http.MaxBytesError

var MaxBytesHandler = http.MaxBytesHandler
var MaxBytesReader = http.MaxBytesReader

const MethodConnect = http.MethodConnect
const MethodDelete = http.MethodDelete
const MethodGet = http.MethodGet
const MethodHead = http.MethodHead
const MethodOptions = http.MethodOptions
const MethodPatch = http.MethodPatch
const MethodPost = http.MethodPost
const MethodPut = http.MethodPut
const MethodTrace = http.MethodTrace

var NewCrossOriginProtection = http.NewCrossOriginProtection
var NewRequest = http.NewRequest
var NewRequestWithContext = http.NewRequestWithContext
var NewResponseController = http.NewResponseController
var NewServeMux = http.NewServeMux
var NoBody = http.NoBody
var NotFound = http.NotFound
var NotFoundHandler = http.NotFoundHandler
var ParseCookie = http.ParseCookie
var ParseHTTPVersion = http.ParseHTTPVersion
var ParseSetCookie = http.ParseSetCookie
var ParseTime = http.ParseTime

type ProtocolError = http.ProtocolError
type Protocols = http.Protocols

var ProxyFromEnvironment = http.ProxyFromEnvironment
var ProxyURL = http.ProxyURL

type PushOptions = http.PushOptions
type Pusher = http.Pusher

var ReadRequest = http.ReadRequest
var ReadResponse = http.ReadResponse
var Redirect = http.Redirect
var RedirectHandler = http.RedirectHandler

type Request = http.Request
type Response = http.Response
type ResponseController = http.ResponseController
type ResponseWriter = http.ResponseWriter
type RoundTripper = http.RoundTripper
type SameSite = http.SameSite

const SameSiteDefaultMode = http.SameSiteDefaultMode
const SameSiteLaxMode = http.SameSiteLaxMode
const SameSiteNoneMode = http.SameSiteNoneMode
const SameSiteStrictMode = http.SameSiteStrictMode

var ServeContent = http.ServeContent

type ServeMux = http.ServeMux
type Server = http.Server

var ServerContextKey = http.ServerContextKey
var SetCookie = http.SetCookie

const StateActive = http.StateActive
const StateClosed = http.StateClosed
const StateHijacked = http.StateHijacked
const StateIdle = http.StateIdle
const StateNew = http.StateNew
const StatusAccepted = http.StatusAccepted
const StatusAlreadyReported = http.StatusAlreadyReported
const StatusBadGateway = http.StatusBadGateway
const StatusBadRequest = http.StatusBadRequest
const StatusConflict = http.StatusConflict
const StatusContinue = http.StatusContinue
const StatusCreated = http.StatusCreated
const StatusEarlyHints = http.StatusEarlyHints
const StatusExpectationFailed = http.StatusExpectationFailed
const StatusFailedDependency = http.StatusFailedDependency
const StatusForbidden = http.StatusForbidden
const StatusFound = http.StatusFound
const StatusGatewayTimeout = http.StatusGatewayTimeout
const StatusGone = http.StatusGone
const StatusHTTPVersionNotSupported = http.StatusHTTPVersionNotSupported
const StatusIMUsed = http.StatusIMUsed
const StatusInsufficientStorage = http.StatusInsufficientStorage
const StatusInternalServerError = http.StatusInternalServerError
const StatusLengthRequired = http.StatusLengthRequired
const StatusLocked = http.StatusLocked
const StatusLoopDetected = http.StatusLoopDetected
const StatusMethodNotAllowed = http.StatusMethodNotAllowed
const StatusMisdirectedRequest = http.StatusMisdirectedRequest
const StatusMovedPermanently = http.StatusMovedPermanently
const StatusMultiStatus = http.StatusMultiStatus
const StatusMultipleChoices = http.StatusMultipleChoices
const StatusNetworkAuthenticationRequired = http.StatusNetworkAuthenticationRequired
const StatusNoContent = http.StatusNoContent
const StatusNonAuthoritativeInfo = http.StatusNonAuthoritativeInfo
const StatusNotAcceptable = http.StatusNotAcceptable
const StatusNotExtended = http.StatusNotExtended
const StatusNotFound = http.StatusNotFound
const StatusNotImplemented = http.StatusNotImplemented
const StatusNotModified = http.StatusNotModified
const StatusOK = http.StatusOK
const StatusPartialContent = http.StatusPartialContent
const StatusPaymentRequired = http.StatusPaymentRequired
const StatusPermanentRedirect = http.StatusPermanentRedirect
const StatusPreconditionFailed = http.StatusPreconditionFailed
const StatusPreconditionRequired = http.StatusPreconditionRequired
const StatusProcessing = http.StatusProcessing
const StatusProxyAuthRequired = http.StatusProxyAuthRequired
const StatusRequestEntityTooLarge = http.StatusRequestEntityTooLarge
const StatusRequestHeaderFieldsTooLarge = http.StatusRequestHeaderFieldsTooLarge
const StatusRequestTimeout = http.StatusRequestTimeout
const StatusRequestURITooLong = http.StatusRequestURITooLong
const StatusRequestedRangeNotSatisfiable = http.StatusRequestedRangeNotSatisfiable
const StatusResetContent = http.StatusResetContent
const StatusSeeOther = http.StatusSeeOther
const StatusServiceUnavailable = http.StatusServiceUnavailable
const StatusSwitchingProtocols = http.StatusSwitchingProtocols
const StatusTeapot = http.StatusTeapot
const StatusTemporaryRedirect = http.StatusTemporaryRedirect

var StatusText = http.StatusText

const StatusTooEarly = http.StatusTooEarly
const StatusTooManyRequests = http.StatusTooManyRequests
const StatusUnauthorized = http.StatusUnauthorized
const StatusUnavailableForLegalReasons = http.StatusUnavailableForLegalReasons
const StatusUnprocessableEntity = http.StatusUnprocessableEntity
const StatusUnsupportedMediaType = http.StatusUnsupportedMediaType
const StatusUpgradeRequired = http.StatusUpgradeRequired
const StatusUseProxy = http.StatusUseProxy
const StatusVariantAlsoNegotiates = http.StatusVariantAlsoNegotiates

var StripPrefix = http.StripPrefix

const TimeFormat = http.TimeFormat

var TimeoutHandler = http.TimeoutHandler

const TrailerPrefix = http.TrailerPrefix
