//! `reqwest` against the simulated Stacks node.
use std::{fmt, sync::Arc, time::Duration};

pub use url::Url;

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone)]
enum Kind {
	/// whether it failed while connecting
	Request(bool),
	Status(StatusCode),
	Decode(String),
	Builder(String),
}
#[derive(Clone)]
pub struct Error {
	kind: Kind,
	url: Option<Url>,
}
impl Error {
	pub fn is_request(&self) -> bool {
		matches!(self.kind, Kind::Request(_))
	}
	pub fn is_connect(&self) -> bool {
		matches!(self.kind, Kind::Request(true))
	}
	pub fn is_timeout(&self) -> bool {
		false
	}
	pub fn is_body(&self) -> bool {
		false
	}
	pub fn is_redirect(&self) -> bool {
		false
	}
	pub fn is_builder(&self) -> bool {
		matches!(self.kind, Kind::Builder(_))
	}
	pub fn is_status(&self) -> bool {
		matches!(self.kind, Kind::Status(_))
	}
	pub fn is_decode(&self) -> bool {
		matches!(self.kind, Kind::Decode(_))
	}
	pub fn status(&self) -> Option<StatusCode> {
		match self.kind {
			Kind::Status(s) => Some(s),
			_ => None,
		}
	}
	pub fn url(&self) -> Option<&Url> {
		self.url.as_ref()
	}
	pub fn without_url(mut self) -> Self {
		self.url = None;
		self
	}
}
impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		match &self.kind {
			Kind::Request(_) => write!(f, "error sending request")?,
			Kind::Status(s) => write!(f, "HTTP status {} error ({s})", if s.is_client_error() { "client" } else { "server" })?,
			Kind::Decode(_) => write!(f, "error decoding response body")?,
			Kind::Builder(_) => write!(f, "builder error")?,
		}
		if let Some(u) = &self.url {
			write!(f, " for url ({u})")?;
		}
		match &self.kind {
			Kind::Decode(e) | Kind::Builder(e) => write!(f, ": {e}"),
			Kind::Request(true) => write!(f, ": error trying to connect: tcp connect error: Connection refused (os error 111)"),
			Kind::Request(false) => write!(f, ": connection closed before message completed"),
			_ => Ok(()),
		}
	}
}
impl fmt::Debug for Error {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "reqwest::Error({self})")
	}
}
impl std::error::Error for Error {}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct StatusCode(u16);
macro_rules! codes {
	($($name:ident $n:literal $text:literal)*) => {
		impl StatusCode {
			$(pub const $name: StatusCode = StatusCode($n);)*
			pub fn canonical_reason(&self) -> Option<&'static str> {
				match self.0 {
					$($n => Some($text),)*
					_ => None,
				}
			}
		}
	};
}
codes! {
	OK 200 "OK" CREATED 201 "Created" ACCEPTED 202 "Accepted" NO_CONTENT 204 "No Content"
	BAD_REQUEST 400 "Bad Request" UNAUTHORIZED 401 "Unauthorized" FORBIDDEN 403 "Forbidden"
	NOT_FOUND 404 "Not Found" REQUEST_TIMEOUT 408 "Request Timeout" CONFLICT 409 "Conflict"
	IM_A_TEAPOT 418 "I'm a teapot" TOO_MANY_REQUESTS 429 "Too Many Requests"
	INTERNAL_SERVER_ERROR 500 "Internal Server Error" BAD_GATEWAY 502 "Bad Gateway"
	SERVICE_UNAVAILABLE 503 "Service Unavailable" GATEWAY_TIMEOUT 504 "Gateway Timeout"
}
impl StatusCode {
	pub fn from_u16(n: u16) -> std::result::Result<Self, String> {
		if (100..1000).contains(&n) {
			Ok(Self(n))
		} else {
			Err("invalid status code".into())
		}
	}
	pub fn as_u16(&self) -> u16 {
		self.0
	}
	pub fn as_str(&self) -> String {
		self.0.to_string()
	}
	pub fn is_success(&self) -> bool {
		self.0 / 100 == 2
	}
	pub fn is_client_error(&self) -> bool {
		self.0 / 100 == 4
	}
	pub fn is_server_error(&self) -> bool {
		self.0 / 100 == 5
	}
}
impl PartialEq<u16> for StatusCode {
	fn eq(&self, o: &u16) -> bool {
		self.0 == *o
	}
}
impl fmt::Display for StatusCode {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "{} {}", self.0, self.canonical_reason().unwrap_or("<unknown status code>"))
	}
}
impl fmt::Debug for StatusCode {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "{}", self.0)
	}
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Method(&'static str);
impl PartialEq<Method> for &Method {
	fn eq(&self, o: &Method) -> bool {
		**self == *o
	}
}
impl PartialEq<&Method> for Method {
	fn eq(&self, o: &&Method) -> bool {
		*self == **o
	}
}
impl fmt::Display for Method {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "{}", self.0)
	}
}
impl Method {
	pub const GET: Method = Method("GET");
	pub const POST: Method = Method("POST");
	pub const PUT: Method = Method("PUT");
	pub fn as_str(&self) -> &str {
		self.0
	}
}

pub trait IntoUrl {
	fn into_url(self) -> std::result::Result<Url, String>;
}
impl IntoUrl for Url {
	fn into_url(self) -> std::result::Result<Url, String> {
		Ok(self)
	}
}
impl IntoUrl for &str {
	fn into_url(self) -> std::result::Result<Url, String> {
		Url::parse(self).map_err(|e| e.to_string())
	}
}
impl IntoUrl for String {
	fn into_url(self) -> std::result::Result<Url, String> {
		Url::parse(&self).map_err(|e| e.to_string())
	}
}
impl IntoUrl for &String {
	fn into_url(self) -> std::result::Result<Url, String> {
		Url::parse(self).map_err(|e| e.to_string())
	}
}

pub struct Body(Vec<u8>);
impl Body {
	pub fn as_bytes(&self) -> Option<&[u8]> {
		Some(&self.0)
	}
}
impl From<Vec<u8>> for Body {
	fn from(v: Vec<u8>) -> Self {
		Body(v)
	}
}
impl From<&'static [u8]> for Body {
	fn from(v: &'static [u8]) -> Self {
		Body(v.to_vec())
	}
}
impl From<String> for Body {
	fn from(v: String) -> Self {
		Body(v.into_bytes())
	}
}
impl From<&'static str> for Body {
	fn from(v: &'static str) -> Self {
		Body(v.into())
	}
}

#[derive(Debug)]
pub struct Request {
	method: Method,
	url: Url,
	headers: header::HeaderMap,
	body: Vec<u8>,
}
impl Request {
	pub fn new(method: Method, url: Url) -> Self {
		Self {
			method,
			url,
			headers: Default::default(),
			body: vec![],
		}
	}
	pub fn url(&self) -> &Url {
		&self.url
	}
	pub fn url_mut(&mut self) -> &mut Url {
		&mut self.url
	}
	pub fn method(&self) -> &Method {
		&self.method
	}
	pub fn method_mut(&mut self) -> &mut Method {
		&mut self.method
	}
	pub fn headers(&self) -> &header::HeaderMap {
		&self.headers
	}
	pub fn headers_mut(&mut self) -> &mut header::HeaderMap {
		&mut self.headers
	}
	pub fn body_mut(&mut self) -> &mut Vec<u8> {
		&mut self.body
	}
	pub fn try_clone(&self) -> Option<Request> {
		Some(Request {
			method: self.method.clone(),
			url: self.url.clone(),
			headers: self.headers.clone(),
			body: self.body.clone(),
		})
	}
}

/// With the headers every request gets.
#[derive(Clone, Debug, Default)]
pub struct Client(Arc<Vec<(String, String)>>);
#[derive(Debug, Default)]
pub struct ClientBuilder(Vec<(String, String)>);
impl ClientBuilder {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn timeout(self, _: Duration) -> Self {
		self
	}
	pub fn connect_timeout(self, _: Duration) -> Self {
		self
	}
	pub fn pool_idle_timeout(self, _: impl Into<Option<Duration>>) -> Self {
		self
	}
	pub fn pool_max_idle_per_host(self, _: usize) -> Self {
		self
	}
	pub fn user_agent(self, _: impl ToString) -> Self {
		self
	}
	pub fn default_headers(mut self, h: header::HeaderMap) -> Self {
		self.0.extend(h.0);
		self
	}
	pub fn build(self) -> Result<Client> {
		Ok(Client(Arc::new(self.0)))
	}
}

/// Names and values of headers, without checks.
pub mod header {
	use std::fmt;
	#[derive(Clone, Debug, PartialEq, Eq, Hash)]
	pub struct HeaderName(pub(crate) std::borrow::Cow<'static, str>);
	#[derive(Clone, Debug, PartialEq, Eq, Hash)]
	pub struct HeaderValue(String);
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct InvalidHeader;
	pub type InvalidHeaderName = InvalidHeader;
	pub type InvalidHeaderValue = InvalidHeader;
	impl fmt::Display for InvalidHeader {
		fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
			write!(f, "invalid header")
		}
	}
	impl std::error::Error for InvalidHeader {}
	impl HeaderName {
		pub const fn from_static(s: &'static str) -> Self {
			Self(std::borrow::Cow::Borrowed(s))
		}
		pub fn from_bytes(b: &[u8]) -> Result<Self, InvalidHeader> {
			std::str::from_utf8(b).map_err(|_| InvalidHeader)?.try_into()
		}
		pub fn as_str(&self) -> &str {
			&self.0
		}
	}
	impl fmt::Display for HeaderName {
		fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
			write!(f, "{}", self.0)
		}
	}
	impl HeaderValue {
		pub fn from_static(s: &'static str) -> Self {
			Self(s.into())
		}
		pub fn from_str(s: &str) -> Result<Self, InvalidHeader> {
			s.try_into()
		}
		pub fn to_str(&self) -> Result<&str, InvalidHeader> {
			Ok(&self.0)
		}
		pub fn as_bytes(&self) -> &[u8] {
			self.0.as_bytes()
		}
		pub fn set_sensitive(&mut self, _: bool) {}
	}
	impl fmt::Display for HeaderValue {
		fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
			write!(f, "{}", self.0)
		}
	}
	impl std::str::FromStr for HeaderValue {
		type Err = InvalidHeader;
		fn from_str(s: &str) -> Result<Self, InvalidHeader> {
			s.try_into()
		}
	}
	impl std::str::FromStr for HeaderName {
		type Err = InvalidHeader;
		fn from_str(s: &str) -> Result<Self, InvalidHeader> {
			s.try_into()
		}
	}
	fn fit(s: &str) -> bool {
		s.bytes().all(|b| b == b'\t' || b >= 32 && b != 127)
	}
	impl TryFrom<&str> for HeaderValue {
		type Error = InvalidHeader;
		fn try_from(s: &str) -> Result<Self, InvalidHeader> {
			fit(s).then(|| Self(s.into())).ok_or(InvalidHeader)
		}
	}
	impl TryFrom<String> for HeaderValue {
		type Error = InvalidHeader;
		fn try_from(s: String) -> Result<Self, InvalidHeader> {
			s.as_str().try_into()
		}
	}
	impl TryFrom<&String> for HeaderValue {
		type Error = InvalidHeader;
		fn try_from(s: &String) -> Result<Self, InvalidHeader> {
			s.as_str().try_into()
		}
	}
	impl TryFrom<&str> for HeaderName {
		type Error = InvalidHeader;
		fn try_from(s: &str) -> Result<Self, InvalidHeader> {
			(!s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))).then(|| Self(s.to_lowercase().into())).ok_or(InvalidHeader)
		}
	}
	pub const ACCEPT: HeaderName = HeaderName::from_static("accept");
	pub const AUTHORIZATION: HeaderName = HeaderName::from_static("authorization");
	pub const CACHE_CONTROL: HeaderName = HeaderName::from_static("cache-control");
	pub const CONTENT_TYPE: HeaderName = HeaderName::from_static("content-type");
	pub const PRAGMA: HeaderName = HeaderName::from_static("pragma");
	pub const USER_AGENT: HeaderName = HeaderName::from_static("user-agent");
	pub const RETRY_AFTER: HeaderName = HeaderName::from_static("retry-after");

	#[derive(Clone, Debug, Default, PartialEq, Eq)]
	pub struct HeaderMap(pub(crate) Vec<(String, String)>);
	impl HeaderMap {
		pub fn new() -> Self {
			Self::default()
		}
		pub fn insert(&mut self, k: impl ToString, v: HeaderValue) -> Option<HeaderValue> {
			let k = k.to_string().to_lowercase();
			let old = self.0.iter().position(|h| h.0 == k).map(|i| HeaderValue(self.0.remove(i).1));
			self.0.push((k, v.0));
			old
		}
		pub fn append(&mut self, k: impl ToString, v: HeaderValue) -> bool {
			let k = k.to_string().to_lowercase();
			let had = self.0.iter().any(|h| h.0 == k);
			self.0.push((k, v.0));
			had
		}
		pub fn get(&self, k: impl ToString) -> Option<HeaderValue> {
			let k = k.to_string().to_lowercase();
			self.0.iter().find(|h| h.0 == k).map(|h| HeaderValue(h.1.clone()))
		}
		pub fn contains_key(&self, k: impl ToString) -> bool {
			self.get(k).is_some()
		}
		pub fn extend(&mut self, o: HeaderMap) {
			for (k, v) in o.0 {
				self.insert(k, HeaderValue(v));
			}
		}
		pub fn len(&self) -> usize {
			self.0.len()
		}
		pub fn is_empty(&self) -> bool {
			self.0.is_empty()
		}
	}
}

impl Client {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn builder() -> ClientBuilder {
		ClientBuilder::new()
	}
	pub fn request(&self, method: Method, url: impl IntoUrl) -> RequestBuilder {
		RequestBuilder {
			client: self.clone(),
			request: match url.into_url() {
				Ok(u) => Ok(Request::new(method, u)),
				Err(e) => Err(Error {
					kind: Kind::Builder(e),
					url: None,
				}),
			},
		}
	}
	pub fn get(&self, url: impl IntoUrl) -> RequestBuilder {
		self.request(Method::GET, url)
	}
	pub fn post(&self, url: impl IntoUrl) -> RequestBuilder {
		self.request(Method::POST, url)
	}
	/// Two points where other things can happen: while the request is on its
	/// way, and while the answer is.
	pub async fn execute(&self, r: Request) -> Result<Response> {
		let fault = |connecting: bool| Error {
			kind: Kind::Request(connecting),
			url: Some(r.url.clone()),
		};
		let mut headers = r.headers.0.clone();
		headers.extend(self.0.iter().filter(|d| !r.headers.0.iter().any(|h| h.0 == d.0)).cloned());
		let req = sim::HttpRequest {
			method: r.method.0.into(),
			url: r.url.to_string(),
			headers,
			body: r.body.clone(),
		};
		sim::yield_now().await;
		let res = sim::node(|n| n.http(&req)).map_err(|e| fault(matches!(e, sim::HttpFault::Connect)))?;
		let lost = sim::node(|n| n.http_answer_lost(&req));
		sim::yield_now().await;
		if lost {
			return Err(fault(false));
		}
		Ok(Response {
			status: StatusCode(res.status),
			url: r.url.clone(),
			body: res.body,
		})
	}
}

#[derive(Debug)]
pub struct RequestBuilder {
	client: Client,
	request: Result<Request>,
}
impl RequestBuilder {
	pub fn from_parts(client: Client, request: Request) -> Self {
		Self {
			client,
			request: Ok(request),
		}
	}
	pub fn header(mut self, k: impl ToString, v: impl ToString) -> Self {
		if let Ok(r) = &mut self.request {
			r.headers.0.push((k.to_string().to_lowercase(), v.to_string()));
		}
		self
	}
	pub fn headers(mut self, h: header::HeaderMap) -> Self {
		if let Ok(r) = &mut self.request {
			r.headers.extend(h);
		}
		self
	}
	pub fn bearer_auth(self, t: impl fmt::Display) -> Self {
		self.header("authorization", format!("Bearer {t}"))
	}
	pub fn body(mut self, b: impl Into<Body>) -> Self {
		if let Ok(r) = &mut self.request {
			r.body = b.into().0;
		}
		self
	}
	pub fn json<T: serde::Serialize + ?Sized>(mut self, v: &T) -> Self {
		if let Ok(r) = &mut self.request {
			r.body = serde_json::to_vec(v).unwrap();
			r.headers.0.push(("content-type".into(), "application/json".into()));
		}
		self
	}
	pub fn timeout(self, _: Duration) -> Self {
		self
	}
	pub fn query<T: serde::Serialize + ?Sized>(mut self, q: &T) -> Self {
		let text = |v: &serde_json::Value| v.as_str().map(|s| s.to_string()).unwrap_or_else(|| v.to_string());
		if let Ok(r) = &mut self.request {
			let mut p = r.url.query_pairs_mut();
			match serde_json::to_value(q).unwrap() {
				serde_json::Value::Array(a) => a.iter().for_each(|x| {
					p.append_pair(&text(&x[0]), &text(&x[1]));
				}),
				serde_json::Value::Object(o) => o.iter().for_each(|(k, v)| {
					p.append_pair(k, &text(v));
				}),
				_ => {}
			}
		}
		self
	}
	pub fn build(self) -> Result<Request> {
		self.request
	}
	pub async fn send(self) -> Result<Response> {
		let r = self.request?;
		self.client.execute(r).await
	}
	pub fn try_clone(&self) -> Option<Self> {
		Some(Self {
			client: self.client.clone(),
			request: self.request.as_ref().ok()?.try_clone().ok_or_else(|| unreachable!()),
		})
	}
}

#[derive(Debug)]
pub struct Response {
	status: StatusCode,
	url: Url,
	body: Vec<u8>,
}
impl Response {
	pub fn status(&self) -> StatusCode {
		self.status
	}
	pub fn url(&self) -> &Url {
		&self.url
	}
	pub fn content_length(&self) -> Option<u64> {
		Some(self.body.len() as u64)
	}
	pub async fn text(self) -> Result<String> {
		Ok(String::from_utf8_lossy(&self.body).into_owned())
	}
	pub async fn bytes(self) -> Result<Vec<u8>> {
		Ok(self.body)
	}
	pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
		serde_json::from_slice(&self.body).map_err(|e| Error {
			kind: Kind::Decode(e.to_string()),
			url: Some(self.url.clone()),
		})
	}
	pub fn error_for_status(self) -> Result<Self> {
		if self.status.is_client_error() || self.status.is_server_error() {
			Err(Error {
				kind: Kind::Status(self.status),
				url: Some(self.url),
			})
		} else {
			Ok(self)
		}
	}
	pub fn error_for_status_ref(&self) -> Result<&Self> {
		if self.status.is_client_error() || self.status.is_server_error() {
			Err(Error {
				kind: Kind::Status(self.status),
				url: Some(self.url.clone()),
			})
		} else {
			Ok(self)
		}
	}
}
