//! Stand-in for `reqwest-middleware`.
use http::{Extensions, HeaderName, HeaderValue};
use reqwest::{Client, IntoUrl, Request, Response, Url};
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;

pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug)]
pub enum Error {
    Middleware(anyhow::Error),
    Reqwest(reqwest::Error),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Middleware(e) => write!(f, "Middleware error: {e}"),
            Error::Reqwest(e) => write!(f, "Request error: {e}"),
        }
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn middleware<E: Into<anyhow::Error>>(e: E) -> Self {
        Error::Middleware(e.into())
    }
    pub fn is_middleware(&self) -> bool {
        matches!(self, Error::Middleware(_))
    }
    fn inner(&self) -> Option<&reqwest::Error> {
        match self {
            Error::Reqwest(e) => Some(e),
            _ => None,
        }
    }
    pub fn url(&self) -> Option<&Url> {
        self.inner()?.url()
    }
    pub fn status(&self) -> Option<reqwest::StatusCode> {
        self.inner()?.status()
    }
    pub fn is_status(&self) -> bool {
        self.inner().is_some_and(|e| e.is_status())
    }
    pub fn is_timeout(&self) -> bool {
        self.inner().is_some_and(|e| e.is_timeout())
    }
    pub fn is_connect(&self) -> bool {
        self.inner().is_some_and(|e| e.is_connect())
    }
    pub fn is_request(&self) -> bool {
        self.inner().is_some_and(|e| e.is_request())
    }
    pub fn is_body(&self) -> bool {
        self.inner().is_some_and(|e| e.is_body())
    }
    pub fn is_decode(&self) -> bool {
        self.inner().is_some_and(|e| e.is_decode())
    }
    pub fn is_builder(&self) -> bool {
        false
    }
    pub fn is_redirect(&self) -> bool {
        false
    }
}
impl From<reqwest::Error> for Error {
    fn from(e: reqwest::Error) -> Self {
        Error::Reqwest(e)
    }
}
impl From<anyhow::Error> for Error {
    fn from(e: anyhow::Error) -> Self {
        Error::Middleware(e)
    }
}

type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
pub trait Middleware: 'static + Send + Sync {
    fn handle<'async_trait>(&'async_trait self, req: Request, extensions: &'async_trait mut Extensions, next: Next<'async_trait>) -> Fut<'async_trait, Result<Response>>;
}
#[derive(Clone)]
pub struct Next<'a> {
    client: &'a Client,
    rest: &'a [Arc<dyn Middleware>],
}
impl<'a> Next<'a> {
    pub fn run(mut self, req: Request, extensions: &'a mut Extensions) -> Fut<'a, Result<Response>> {
        match self.rest.split_first() {
            Some((m, rest)) => {
                self.rest = rest;
                m.handle(req, extensions, self)
            }
            None => Box::pin(async move { Ok(self.client.execute(req).await?) }),
        }
    }
}
pub struct ClientBuilder {
    client: Client,
    stack: Vec<Arc<dyn Middleware>>,
}
impl ClientBuilder {
    pub fn new(client: Client) -> Self {
        Self { client, stack: vec![] }
    }
    pub fn with<M: Middleware>(self, m: M) -> Self {
        self.with_arc(Arc::new(m))
    }
    pub fn with_arc(mut self, m: Arc<dyn Middleware>) -> Self {
        self.stack.push(m);
        self
    }
    pub fn build(self) -> ClientWithMiddleware {
        ClientWithMiddleware { client: self.client, stack: self.stack.into() }
    }
}
#[derive(Clone)]
pub struct ClientWithMiddleware {
    client: Client,
    stack: Arc<[Arc<dyn Middleware>]>,
}
impl ClientWithMiddleware {
    pub fn new<T: Into<Box<[Arc<dyn Middleware>]>>>(client: Client, stack: T) -> Self {
        let stack: Box<[Arc<dyn Middleware>]> = stack.into();
        Self { client, stack: stack.into() }
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(http::Method::GET, url)
    }
    pub fn head<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(http::Method::HEAD, url)
    }
    pub fn request<U: IntoUrl>(&self, method: http::Method, url: U) -> RequestBuilder {
        RequestBuilder { client: self.clone(), inner: self.client.request(method, url), extensions: Extensions::new() }
    }
    pub async fn execute(&self, req: Request) -> Result<Response> {
        let mut e = Extensions::new();
        self.execute_with_extensions(req, &mut e).await
    }
    pub async fn execute_with_extensions(&self, req: Request, ext: &mut Extensions) -> Result<Response> {
        Next { client: &self.client, rest: &self.stack }.run(req, ext).await
    }
}
impl From<Client> for ClientWithMiddleware {
    fn from(client: Client) -> Self {
        Self { client, stack: Arc::new([]) }
    }
}
impl Default for ClientWithMiddleware {
    fn default() -> Self {
        Client::default().into()
    }
}
impl fmt::Debug for ClientWithMiddleware {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ClientWithMiddleware").finish_non_exhaustive()
    }
}
#[must_use = "RequestBuilder does nothing until you 'send' it"]
pub struct RequestBuilder {
    client: ClientWithMiddleware,
    inner: reqwest::RequestBuilder,
    extensions: Extensions,
}
impl RequestBuilder {
    pub fn header<K, V>(self, k: K, v: V) -> Self
    where
        HeaderName: TryFrom<K>,
        <HeaderName as TryFrom<K>>::Error: Into<http::Error>,
        HeaderValue: TryFrom<V>,
        <HeaderValue as TryFrom<V>>::Error: Into<http::Error>,
    {
        Self { inner: self.inner.header(k, v), ..self }
    }
    pub fn headers(self, h: http::HeaderMap) -> Self {
        Self { inner: self.inner.headers(h), ..self }
    }
    pub fn query<T: serde::Serialize + ?Sized>(self, q: &T) -> Self {
        Self { inner: self.inner.query(q), ..self }
    }
    pub fn timeout(self, t: std::time::Duration) -> Self {
        Self { inner: self.inner.timeout(t), ..self }
    }
    pub fn version(self, v: http::Version) -> Self {
        Self { inner: self.inner.version(v), ..self }
    }
    pub fn build(self) -> reqwest::Result<Request> {
        self.inner.build()
    }
    pub fn with_extension<T: Send + Sync + Clone + 'static>(mut self, e: T) -> Self {
        self.extensions.insert(e);
        self
    }
    pub fn extensions(&mut self) -> &mut Extensions {
        &mut self.extensions
    }
    pub async fn send(mut self) -> Result<Response> {
        let req = self.inner.build()?;
        self.client.execute_with_extensions(req, &mut self.extensions).await
    }
}
