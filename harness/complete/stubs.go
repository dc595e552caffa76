package complete

// stubs are declarations of the packages the generated code uses; what is not
// here is accepted unseen, except in strconv, which is whole.
var stubs = map[string]string{
	"strconv": `package strconv
type NumError struct {
Func, Num string
Err error
}
func (e *NumError) Error() string
const IntSize = 64
var ErrRange, ErrSyntax error
func AppendBool(dst []byte, b bool) []byte
func AppendFloat(dst []byte, f float64, fmt byte, prec, bitSize int) []byte
func AppendInt(dst []byte, i int64, base int) []byte
func AppendQuote(dst []byte, s string) []byte
func AppendQuoteRune(dst []byte, r rune) []byte
func AppendQuoteRuneToASCII(dst []byte, r rune) []byte
func AppendQuoteRuneToGraphic(dst []byte, r rune) []byte
func AppendQuoteToASCII(dst []byte, s string) []byte
func AppendQuoteToGraphic(dst []byte, s string) []byte
func AppendUint(dst []byte, i uint64, base int) []byte
func Atoi(s string) (int, error)
func CanBackquote(s string) bool
func FormatBool(b bool) string
func FormatComplex(c complex128, fmt byte, prec, bitSize int) string
func FormatFloat(f float64, fmt byte, prec, bitSize int) string
func FormatInt(i int64, base int) string
func FormatUint(i uint64, base int) string
func IsGraphic(r rune) bool
func IsPrint(r rune) bool
func Itoa(i int) string
func ParseBool(str string) (bool, error)
func ParseComplex(s string, bitSize int) (complex128, error)
func ParseFloat(s string, bitSize int) (float64, error)
func ParseInt(s string, base int, bitSize int) (i int64, err error)
func ParseUint(s string, base int, bitSize int) (uint64, error)
func Quote(s string) string
func QuoteRune(r rune) string
func QuoteRuneToASCII(r rune) string
func QuoteRuneToGraphic(r rune) string
func QuoteToASCII(s string) string
func QuoteToGraphic(s string) string
func QuotedPrefix(s string) (string, error)
func Unquote(s string) (string, error)
func UnquoteChar(s string, quote byte) (value rune, multibyte bool, tail string, err error)
`,
	"strings": `package strings
func Clone(s string) string
func Compare(a, b string) int
func Contains(s, substr string) bool
func ContainsAny(s, chars string) bool
func ContainsFunc(s string, f func(rune) bool) bool
func ContainsRune(s string, r rune) bool
func Count(s, substr string) int
func Cut(s, sep string) (before, after string, found bool)
func CutLast(s, sep string) (before, after string, found bool)
func CutPrefix(s, prefix string) (after string, found bool)
func CutSuffix(s, suffix string) (before string, found bool)
func EqualFold(s, t string) bool
func Fields(s string) []string
func FieldsFunc(s string, f func(rune) bool) []string
func HasPrefix(s, prefix string) bool
func HasSuffix(s, suffix string) bool
func Index(s, substr string) int
func IndexAny(s, chars string) int
func IndexByte(s string, c byte) int
func IndexFunc(s string, f func(rune) bool) int
func IndexRune(s string, r rune) int
func Join(elems []string, sep string) string
func LastIndex(s, substr string) int
func LastIndexAny(s, chars string) int
func LastIndexByte(s string, c byte) int
func LastIndexFunc(s string, f func(rune) bool) int
func Map(mapping func(rune) rune, s string) string
func Repeat(s string, count int) string
func Replace(s, old, new string, n int) string
func ReplaceAll(s, old, new string) string
func Split(s, sep string) []string
func SplitAfter(s, sep string) []string
func SplitAfterN(s, sep string, n int) []string
func SplitN(s, sep string, n int) []string
func Title(s string) string
func ToLower(s string) string
func ToTitle(s string) string
func ToUpper(s string) string
func ToValidUTF8(s, replacement string) string
func Trim(s, cutset string) string
func TrimFunc(s string, f func(rune) bool) string
func TrimLeft(s, cutset string) string
func TrimLeftFunc(s string, f func(rune) bool) string
func TrimPrefix(s, prefix string) string
func TrimRight(s, cutset string) string
func TrimRightFunc(s string, f func(rune) bool) string
func TrimSpace(s string) string
func TrimSuffix(s, suffix string) string
`,
	"bytes": `package bytes
import "io"
type Buffer struct { n int }
func NewBuffer(buf []byte) *Buffer
func NewBufferString(s string) *Buffer
func (b *Buffer) Bytes() []byte
func (b *Buffer) String() string
func (b *Buffer) Write(p []byte) (n int, err error)
func (b *Buffer) WriteString(p string) (n int, err error)
func (b *Buffer) Read(p []byte) (n int, err error)
func NewReader(b []byte) io.Reader
func Clone(b []byte) []byte
func Compare(a, b []byte) int
func Contains(b, subslice []byte) bool
func ContainsAny(b []byte, chars string) bool
func ContainsFunc(b []byte, f func(rune) bool) bool
func ContainsRune(b []byte, r rune) bool
func Count(s, sep []byte) int
func Cut(s, sep []byte) (before, after []byte, found bool)
func CutLast(s, sep []byte) (before, after []byte, found bool)
func CutPrefix(s, prefix []byte) (after []byte, found bool)
func CutSuffix(s, suffix []byte) (before []byte, found bool)
func Equal(a, b []byte) bool
func EqualFold(s, t []byte) bool
func Fields(s []byte) [][]byte
func FieldsFunc(s []byte, f func(rune) bool) [][]byte
func HasPrefix(s, prefix []byte) bool
func HasSuffix(s, suffix []byte) bool
func Index(s, sep []byte) int
func IndexAny(s []byte, chars string) int
func IndexByte(b []byte, c byte) int
func IndexFunc(s []byte, f func(r rune) bool) int
func IndexRune(s []byte, r rune) int
func Join(s [][]byte, sep []byte) []byte
func LastIndex(s, sep []byte) int
func LastIndexAny(s []byte, chars string) int
func LastIndexByte(s []byte, c byte) int
func LastIndexFunc(s []byte, f func(r rune) bool) int
func Map(mapping func(r rune) rune, s []byte) []byte
func Repeat(b []byte, count int) []byte
func Replace(s, old, new []byte, n int) []byte
func ReplaceAll(s, old, new []byte) []byte
func Runes(s []byte) []rune
func Split(s, sep []byte) [][]byte
func SplitAfter(s, sep []byte) [][]byte
func SplitAfterN(s, sep []byte, n int) [][]byte
func SplitN(s, sep []byte, n int) [][]byte
func Title(s []byte) []byte
func ToLower(s []byte) []byte
func ToTitle(s []byte) []byte
func ToUpper(s []byte) []byte
func ToValidUTF8(s, replacement []byte) []byte
func Trim(s []byte, cutset string) []byte
func TrimFunc(s []byte, f func(r rune) bool) []byte
func TrimLeft(s []byte, cutset string) []byte
func TrimLeftFunc(s []byte, f func(r rune) bool) []byte
func TrimPrefix(s, prefix []byte) []byte
func TrimRight(s []byte, cutset string) []byte
func TrimRightFunc(s []byte, f func(r rune) bool) []byte
func TrimSpace(s []byte) []byte
func TrimSuffix(s, suffix []byte) []byte
`,
	"io": `package io
type Reader interface { Read(p []byte) (n int, err error) }
type Writer interface { Write(p []byte) (n int, err error) }
type Closer interface { Close() error }
type ReadCloser interface {
Reader
Closer
}
type WriteCloser interface {
Writer
Closer
}
var EOF, ErrUnexpectedEOF error
var Discard Writer
func Copy(dst Writer, src Reader) (written int64, err error)
func ReadAll(r Reader) ([]byte, error)
func NopCloser(r Reader) ReadCloser
func WriteString(w Writer, s string) (n int, err error)
func LimitReader(r Reader, n int64) Reader
`,
	"io/ioutil": `package ioutil
import "io"
var Discard io.Writer
func ReadAll(r io.Reader) ([]byte, error)
func NopCloser(r io.Reader) io.ReadCloser
func ReadFile(filename string) ([]byte, error)
`,
	"fmt": `package fmt
import "io"
func Append(b []byte, a ...any) []byte
func Appendf(b []byte, format string, a ...any) []byte
func Appendln(b []byte, a ...any) []byte
func Errorf(format string, a ...any) (err error)
func Fprint(w io.Writer, a ...any) (n int, err error)
func Fprintf(w io.Writer, format string, a ...any) (n int, err error)
func Fprintln(w io.Writer, a ...any) (n int, err error)
func Fscan(r io.Reader, a ...any) (n int, err error)
func Fscanf(r io.Reader, format string, a ...any) (n int, err error)
func Fscanln(r io.Reader, a ...any) (n int, err error)
func Print(a ...any) (n int, err error)
func Printf(format string, a ...any) (n int, err error)
func Println(a ...any) (n int, err error)
func Scan(a ...any) (n int, err error)
func Scanf(format string, a ...any) (n int, err error)
func Scanln(a ...any) (n int, err error)
func Sprint(a ...any) string
func Sprintf(format string, a ...any) string
func Sprintln(a ...any) string
func Sscan(str string, a ...any) (n int, err error)
func Sscanf(str string, format string, a ...any) (n int, err error)
func Sscanln(str string, a ...any) (n int, err error)
type Stringer interface { String() string }
`,
	"context": `package context
type Context interface {
Deadline() (t struct{}, ok bool)
Done() <-chan struct{}
Err() error
Value(key interface{}) interface{}
}
type CancelFunc func()
func Background() Context
func TODO() Context
func WithCancel(parent Context) (Context, CancelFunc)
func WithValue(parent Context, key, val interface{}) Context
`,
	"encoding/json": `package json
type Marshaler interface { MarshalJSON() ([]byte, error) }
type Unmarshaler interface { UnmarshalJSON([]byte) error }
func Marshal(v interface{}) ([]byte, error)
func MarshalIndent(v interface{}, prefix, indent string) ([]byte, error)
func Unmarshal(data []byte, v interface{}) error
func Valid(data []byte) bool
`,
	"net/url": `package url
type Values map[string][]string
func (v Values) Get(key string) string
func (v Values) Set(key, value string)
func (v Values) Add(key, value string)
func (v Values) Del(key string)
func (v Values) Has(key string) bool
func (v Values) Encode() string
type Userinfo struct { n int }
type URL struct {
Scheme, Opaque string
User *Userinfo
Host, Path, RawPath string
OmitHost, ForceQuery bool
RawQuery, Fragment, RawFragment string
}
func (u *URL) Query() Values
func (u *URL) String() string
func (u *URL) EscapedPath() string
func (u *URL) IsAbs() bool
func (u *URL) Hostname() string
func (u *URL) Port() string
func (u *URL) RequestURI() string
func (u *URL) Parse(ref string) (*URL, error)
func Parse(rawURL string) (*URL, error)
func ParseRequestURI(rawURL string) (*URL, error)
func ParseQuery(query string) (Values, error)
func PathEscape(s string) string
func PathUnescape(s string) (string, error)
func QueryEscape(s string) string
func QueryUnescape(s string) (string, error)
`,
	"net/http": `package http
import (
"context"
"io"
"net/url"
)
type Header map[string][]string
func (h Header) Add(key, value string)
func (h Header) Set(key, value string)
func (h Header) Get(key string) string
func (h Header) Del(key string)
func (h Header) Values(key string) []string
func (h Header) Clone() Header
type Request struct {
Method string
URL *url.URL
Header Header
Body io.ReadCloser
GetBody func() (io.ReadCloser, error)
ContentLength int64
Host string
Form, PostForm url.Values
RemoteAddr, RequestURI string
Response *Response
}
func (r *Request) Context() context.Context
func (r *Request) WithContext(ctx context.Context) *Request
func (r *Request) ParseForm() error
func (r *Request) FormValue(key string) string
func NewRequest(method, url string, body io.Reader) (*Request, error)
type Response struct {
Status string
StatusCode int
Header Header
Body io.ReadCloser
ContentLength int64
Request *Request
}
type ResponseWriter interface {
Header() Header
Write([]byte) (int, error)
WriteHeader(statusCode int)
}
type Handler interface { ServeHTTP(ResponseWriter, *Request) }
type HandlerFunc func(ResponseWriter, *Request)
func (f HandlerFunc) ServeHTTP(w ResponseWriter, r *Request)
type ServeMux struct { n int }
func NewServeMux() *ServeMux
func (m *ServeMux) Handle(pattern string, handler Handler)
func (m *ServeMux) HandleFunc(pattern string, handler func(ResponseWriter, *Request))
func (m *ServeMux) ServeHTTP(w ResponseWriter, r *Request)
func ListenAndServe(addr string, handler Handler) error
func Error(w ResponseWriter, error string, code int)
func StatusText(code int) string
const (
StatusOK = 200
StatusNoContent = 204
StatusBadRequest = 400
StatusNotFound = 404
StatusMethodNotAllowed = 405
StatusInternalServerError = 500
StatusNotImplemented = 501
)
`,
	"net/http/pprof": `package pprof
import "net/http"
func Index(w http.ResponseWriter, r *http.Request)
func Cmdline(w http.ResponseWriter, r *http.Request)
func Profile(w http.ResponseWriter, r *http.Request)
func Symbol(w http.ResponseWriter, r *http.Request)
func Trace(w http.ResponseWriter, r *http.Request)
`,
	"log": `package log
func Println(v ...interface{})
func Printf(format string, v ...interface{})
func Print(v ...interface{})
func Fatal(v ...interface{})
func Fatalf(format string, v ...interface{})
func Fatalln(v ...interface{})
`,
	"flag": `package flag
func StringVar(p *string, name string, value string, usage string)
func BoolVar(p *bool, name string, value bool, usage string)
func IntVar(p *int, name string, value int, usage string)
func String(name string, value string, usage string) *string
func Bool(name string, value bool, usage string) *bool
func Parse()
func Args() []string
func Arg(i int) string
func NArg() int
func Usage()
`,
	"github.com/pkg/errors": `package errors
func New(message string) error
func Errorf(format string, args ...interface{}) error
func Wrap(err error, message string) error
func Wrapf(err error, format string, args ...interface{}) error
func Cause(err error) error
func WithStack(err error) error
func WithMessage(err error, message string) error
func Unwrap(err error) error
func Is(err, target error) bool
func As(err error, target interface{}) bool
`,
	"google.golang.org/protobuf/reflect/protoreflect": `package protoreflect
type Message interface { Is() }
type ProtoMessage interface { ProtoReflect() Message }
`,
	"google.golang.org/protobuf/proto": `package proto
import "google.golang.org/protobuf/reflect/protoreflect"
type Message = protoreflect.ProtoMessage
func Marshal(m Message) ([]byte, error)
func Unmarshal(b []byte, m Message) error
func Merge(dst, src Message)
func Reset(m Message)
func Clone(m Message) Message
func Equal(x, y Message) bool
func Size(m Message) int
func Bool(v bool) *bool
func Int32(v int32) *int32
func Int64(v int64) *int64
func Float32(v float32) *float32
func Float64(v float64) *float64
func Uint32(v uint32) *uint32
func Uint64(v uint64) *uint64
func String(v string) *string
`,
	"google.golang.org/protobuf/encoding/protojson": `package protojson
import "google.golang.org/protobuf/proto"
type MarshalOptions struct {
Multiline bool
Indent string
AllowPartial, UseProtoNames, UseEnumNumbers, EmitUnpopulated, EmitDefaultValues bool
}
func (o MarshalOptions) Marshal(m proto.Message) ([]byte, error)
func (o MarshalOptions) Format(m proto.Message) string
type UnmarshalOptions struct {
AllowPartial, DiscardUnknown bool
RecursionLimit int
}
func (o UnmarshalOptions) Unmarshal(b []byte, m proto.Message) error
func Marshal(m proto.Message) ([]byte, error)
func Unmarshal(b []byte, m proto.Message) error
func Format(m proto.Message) string
`,
	"github.com/go-kit/kit/endpoint": `package endpoint
import "context"
type Endpoint func(ctx context.Context, request interface{}) (response interface{}, err error)
type Middleware func(Endpoint) Endpoint
func Nop(context.Context, interface{}) (interface{}, error)
func Chain(outer Middleware, others ...Middleware) Middleware
`,
	"github.com/nats-io/nats.go": `package nats
type Conn struct { n int }
func Connect(url string, options ...interface{}) (*Conn, error)
func (nc *Conn) Close()
type Msg struct {
Subject, Reply string
Data []byte
}
type MsgHandler func(msg *Msg)
type Subscription struct { n int }
func (nc *Conn) QueueSubscribe(subj, queue string, cb MsgHandler) (*Subscription, error)
func (nc *Conn) Subscribe(subj string, cb MsgHandler) (*Subscription, error)
const DefaultURL = "nats://127.0.0.1:4222"
`,
	"google.golang.org/grpc/metadata": `package metadata
import "context"
type MD map[string][]string
func (md MD) Get(k string) []string
func (md MD) Set(k string, vals ...string)
func (md MD) Append(k string, vals ...string)
func (md MD) Len() int
func (md MD) Copy() MD
func New(m map[string]string) MD
func Pairs(kv ...string) MD
func Join(mds ...MD) MD
func FromIncomingContext(ctx context.Context) (md MD, ok bool)
func FromOutgoingContext(ctx context.Context) (MD, bool)
func NewOutgoingContext(ctx context.Context, md MD) context.Context
func NewIncomingContext(ctx context.Context, md MD) context.Context
`,
	"github.com/gorilla/mux": `package mux
import "net/http"
type Router struct { n int }
func NewRouter() *Router
func (r *Router) Methods(methods ...string) *Route
func (r *Router) Path(tpl string) *Route
func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request)
func (r *Router) Handle(path string, handler http.Handler) *Route
type Route struct { n int }
func (r *Route) Methods(methods ...string) *Route
func (r *Route) Path(tpl string) *Route
func (r *Route) Handler(handler http.Handler) *Route
func (r *Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) *Route
func Vars(r *http.Request) map[string]string
`,
}
