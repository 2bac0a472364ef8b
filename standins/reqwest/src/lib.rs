//! Stand-in for `reqwest`: HTTP/1.1 GET requests over a plain TCP connection.
pub use http::{header, Extensions, HeaderMap, HeaderName, HeaderValue, Method, StatusCode};
use std::fmt;
use std::io::{self, Read, Write};
use std::net::TcpStream;
use std::time::Duration;
pub use url::Url;

pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug)]
enum Kind {
    Request(String),
    Status(StatusCode),
    Decode(String),
    Body(String),
}
#[derive(Debug)]
pub struct Error {
    kind: Kind,
    url: Option<Url>,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.kind {
            Kind::Request(e) => write!(f, "error sending request: {e}")?,
            Kind::Status(s) => write!(f, "HTTP status error ({s})")?,
            Kind::Decode(e) => write!(f, "error decoding response body: {e}")?,
            Kind::Body(e) => write!(f, "request or response body error: {e}")?,
        }
        match &self.url {
            Some(u) => write!(f, " for url ({u})"),
            None => Ok(()),
        }
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
    pub fn url(&self) -> Option<&Url> {
        self.url.as_ref()
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn is_decode(&self) -> bool {
        matches!(self.kind, Kind::Decode(_))
    }
    pub fn is_body(&self) -> bool {
        matches!(self.kind, Kind::Body(_))
    }
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Request(_))
    }
    pub fn is_connect(&self) -> bool {
        self.is_request()
    }
    pub fn is_timeout(&self) -> bool {
        false
    }
    pub fn is_builder(&self) -> bool {
        false
    }
    pub fn is_redirect(&self) -> bool {
        false
    }
    pub fn url_mut(&mut self) -> Option<&mut Url> {
        self.url.as_mut()
    }
    pub fn with_url(mut self, url: Url) -> Self {
        self.url = Some(url);
        self
    }
    pub fn without_url(mut self) -> Self {
        self.url = None;
        self
    }
}

#[derive(Debug, Clone)]
pub struct Request {
    method: Method,
    url: Url,
    headers: HeaderMap,
    timeout: Option<Duration>,
}
impl Request {
    pub fn new(method: Method, url: Url) -> Self {
        Self { method, url, headers: HeaderMap::new(), timeout: None }
    }
    pub fn try_clone(&self) -> Option<Self> {
        Some(self.clone())
    }
    pub fn url_mut(&mut self) -> &mut Url {
        &mut self.url
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut HeaderMap {
        &mut self.headers
    }
    pub fn timeout(&self) -> Option<&Duration> {
        self.timeout.as_ref()
    }
    pub fn timeout_mut(&mut self) -> &mut Option<Duration> {
        &mut self.timeout
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn method(&self) -> &Method {
        &self.method
    }
}

#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    url: Url,
    headers: HeaderMap,
    body: std::result::Result<Vec<u8>, String>,
}
impl Response {
    /// for caches
    pub fn standin_new(status: StatusCode, url: Url, body: Vec<u8>) -> Self {
        Self { status, url, headers: HeaderMap::new(), body: Ok(body) }
    }
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn content_length(&self) -> Option<u64> {
        self.body.as_ref().ok().map(|b| b.len() as u64)
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error { kind: Kind::Status(self.status), url: Some(self.url) });
        }
        Ok(self)
    }
    pub fn error_for_status_ref(&self) -> Result<&Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error { kind: Kind::Status(self.status), url: Some(self.url.clone()) });
        }
        Ok(self)
    }
    pub fn version(&self) -> http::Version {
        http::Version::HTTP_11
    }
    pub fn headers_mut(&mut self) -> &mut HeaderMap {
        &mut self.headers
    }
    pub async fn bytes(self) -> Result<bytes::Bytes> {
        let url = self.url;
        self.body.map(Into::into).map_err(|e| Error { kind: Kind::Body(e), url: Some(url) })
    }
    pub async fn chunk(&mut self) -> Result<Option<bytes::Bytes>> {
        match std::mem::replace(&mut self.body, Ok(vec![])) {
            Ok(b) => Ok((!b.is_empty()).then(|| b.into())),
            Err(e) => Err(Error { kind: Kind::Body(e), url: Some(self.url.clone()) }),
        }
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned())
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        let url = self.url.clone();
        let b = self.bytes().await?;
        serde_json::from_slice(&b).map_err(|e| Error { kind: Kind::Decode(e.to_string()), url: Some(url) })
    }
}

#[derive(Debug, Clone, Default)]
pub struct Client(());
impl Client {
    pub fn new() -> Self {
        Self(())
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder(())
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn head<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::HEAD, url)
    }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
        RequestBuilder { client: self.clone(), req: url.into_url().map(|url| Request::new(method, url)) }
    }
    pub async fn execute(&self, req: Request) -> Result<Response> {
        let url = req.url.clone();
        get(&req).map_err(|e| Error { kind: Kind::Request(e.to_string()), url: Some(url) })
    }
}
#[derive(Debug, Default)]
pub struct ClientBuilder(());
impl ClientBuilder {
    pub fn new() -> Self {
        Self(())
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
    pub fn connect_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn read_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn pool_idle_timeout(self, _: impl Into<Option<Duration>>) -> Self {
        self
    }
    pub fn pool_max_idle_per_host(self, _: usize) -> Self {
        self
    }
    pub fn user_agent(self, _: impl AsRef<[u8]>) -> Self {
        self
    }
    pub fn tcp_nodelay(self, _: bool) -> Self {
        self
    }
    pub fn tcp_keepalive(self, _: impl Into<Option<Duration>>) -> Self {
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client(()))
    }
}
mod into_url {
    pub trait Sealed {}
    impl Sealed for super::Url {}
    impl Sealed for &str {}
    impl Sealed for &String {}
    impl Sealed for String {}
}
pub trait IntoUrl: into_url::Sealed {
    #[doc(hidden)]
    fn into_url(self) -> Result<Url>;
    fn as_str(&self) -> &str;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
    fn as_str(&self) -> &str {
        Url::as_str(self)
    }
}
macro_rules! into_url {
    ($($t:ty)*) => {$(impl IntoUrl for $t {
        fn into_url(self) -> Result<Url> {
            Url::parse(&self).map_err(|e| Error { kind: Kind::Request(e.to_string()), url: None })
        }
        fn as_str(&self) -> &str {
            self.as_ref()
        }
    })*};
}
into_url!(&str &String String);

#[must_use]
#[derive(Debug)]
pub struct RequestBuilder {
    client: Client,
    req: Result<Request>,
}
impl RequestBuilder {
    pub fn from_parts(client: Client, req: Request) -> Self {
        Self { client, req: Ok(req) }
    }
    fn map(mut self, f: impl FnOnce(&mut Request)) -> Self {
        if let Ok(r) = &mut self.req {
            f(r)
        }
        self
    }
    pub fn header<K, V>(self, k: K, v: V) -> Self
    where
        HeaderName: TryFrom<K>,
        <HeaderName as TryFrom<K>>::Error: Into<http::Error>,
        HeaderValue: TryFrom<V>,
        <HeaderValue as TryFrom<V>>::Error: Into<http::Error>,
    {
        let (k, v) = (HeaderName::try_from(k), HeaderValue::try_from(v));
        self.map(|r| {
            if let (Ok(k), Ok(v)) = (k, v) {
                r.headers.append(k, v);
            }
        })
    }
    pub fn headers(self, h: HeaderMap) -> Self {
        self.map(|r| {
            for (k, v) in &h {
                r.headers.insert(k, v.clone());
            }
        })
    }
    pub fn query<T: serde::Serialize + ?Sized>(self, q: &T) -> Self {
        let text = |v: &serde_json::Value| v.as_str().map(String::from).unwrap_or_else(|| v.to_string());
        let pairs: Vec<(String, String)> = match serde_json::to_value(q) {
            Ok(serde_json::Value::Object(m)) => m.iter().map(|(k, v)| (k.clone(), text(v))).collect(),
            Ok(serde_json::Value::Array(a)) => a.iter().filter_map(|p| Some((text(p.get(0)?), text(p.get(1)?)))).collect(),
            _ => vec![],
        };
        self.map(|r| {
            if !pairs.is_empty() {
                r.url.query_pairs_mut().extend_pairs(pairs);
            }
        })
    }
    pub fn timeout(self, t: Duration) -> Self {
        self.map(|r| r.timeout = Some(t))
    }
    pub fn version(self, _: http::Version) -> Self {
        self
    }
    pub fn build(self) -> Result<Request> {
        self.req
    }
    pub fn build_split(self) -> (Client, Result<Request>) {
        (self.client, self.req)
    }
    pub fn try_clone(&self) -> Option<Self> {
        Some(Self { client: self.client.clone(), req: Ok(self.req.as_ref().ok()?.clone()) })
    }
    pub async fn send(self) -> Result<Response> {
        self.client.execute(self.req?).await
    }
}

fn get(req: &Request) -> io::Result<Response> {
    let bad = |m: &str| io::Error::new(io::ErrorKind::InvalidData, m.to_string());
    let url = &req.url;
    if url.scheme() != "http" {
        return Err(bad("unsupported scheme"));
    }
    let host = url.host_str().ok_or_else(|| bad("no host"))?;
    let port = url.port_or_known_default().unwrap_or(80);
    let mut s = TcpStream::connect((host, port))?;
    s.set_read_timeout(Some(req.timeout.unwrap_or(Duration::from_secs(60))))?;
    s.set_nodelay(true)?;
    let q = url.query().map(|q| format!("?{q}")).unwrap_or_default();
    write!(s, "{} {}{q} HTTP/1.1\r\nHost: {host}:{port}\r\nConnection: close\r\n", req.method, url.path())?;
    if !req.headers.contains_key(header::ACCEPT) {
        write!(s, "Accept: */*\r\n")?;
    }
    for (k, v) in &req.headers {
        write!(s, "{k}: {}\r\n", v.to_str().map_err(|_| bad("invalid header"))?)?;
    }
    write!(s, "\r\n")?;
    // the header
    let mut buf = vec![];
    let mut chunk = vec![0; 1 << 16];
    let end = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        let n = s.read(&mut chunk)?;
        if n == 0 {
            return Err(bad("connection closed before message completed"));
        }
        buf.extend_from_slice(&chunk[..n]);
    };
    let head = std::str::from_utf8(&buf[..end]).map_err(|_| bad("invalid header"))?;
    let mut lines = head.split("\r\n");
    let status = lines.next().and_then(|l| l.split(' ').nth(1)).and_then(|c| StatusCode::from_bytes(c.as_bytes()).ok()).ok_or_else(|| bad("invalid status"))?;
    let mut headers = HeaderMap::new();
    for (k, v) in lines.filter_map(|l| l.split_once(':')) {
        if let (Ok(k), Ok(v)) = (HeaderName::from_bytes(k.as_bytes()), HeaderValue::from_str(v.trim())) {
            headers.append(k, v);
        }
    }
    let len = headers.get(header::CONTENT_LENGTH).and_then(|v| v.to_str().ok()?.parse::<usize>().ok());
    let mut body = buf.split_off(end + 4);
    let mut failed = None;
    while len.is_none_or(|l| body.len() < l) {
        match s.read(&mut chunk) {
            Ok(0) => break,
            Ok(n) => body.extend_from_slice(&chunk[..n]),
            Err(e) => {
                failed = Some(e.to_string());
                break;
            }
        }
    }
    if let Some(l) = len {
        if body.len() < l && failed.is_none() {
            failed = Some("end of file before message length reached".into());
        }
        body.truncate(l);
    }
    let body = match failed {
        Some(e) => Err(e),
        None => Ok(body),
    };
    Ok(Response { status, url: url.clone(), headers, body })
}
