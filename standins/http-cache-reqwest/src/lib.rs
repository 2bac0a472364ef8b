//! Stand-in for `http-cache-reqwest`: successful answers are kept in files and served from there.
use http::{Extensions, StatusCode};
use reqwest::{Request, Response};
use reqwest_middleware::{Middleware, Next, Result};
use std::future::Future;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Debug, Clone)]
pub struct CACacheManager {
    pub path: PathBuf,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CacheMode {
    Default,
    NoStore,
    Reload,
    NoCache,
    ForceCache,
    OnlyIfCached,
    IgnoreRules,
}
#[derive(Debug, Clone, Default)]
pub struct HttpCacheOptions {}
#[derive(Debug, Clone)]
pub struct HttpCache<T> {
    pub mode: CacheMode,
    pub manager: T,
    pub options: HttpCacheOptions,
}
#[derive(Debug, Clone)]
pub struct Cache<T>(pub HttpCache<T>);
impl Middleware for Cache<CACacheManager> {
    fn handle<'a>(&'a self, req: Request, extensions: &'a mut Extensions, next: Next<'a>) -> Pin<Box<dyn Future<Output = Result<Response>> + Send + 'a>> {
        Box::pin(async move {
            let name: String = format!("{}:{}", req.method(), req.url()).chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
            let file = self.0.manager.path.join(name);
            let url = req.url().clone();
            if matches!(self.0.mode, CacheMode::ForceCache | CacheMode::OnlyIfCached | CacheMode::IgnoreRules) {
                if let Ok(b) = std::fs::read(&file) {
                    return Ok(Response::standin_new(StatusCode::OK, url, b.to_vec()));
                }
            }
            let r = next.run(req, extensions).await?;
            if r.status() != StatusCode::OK || self.0.mode == CacheMode::NoStore {
                return Ok(r);
            }
            let b = r.bytes().await?;
            std::fs::create_dir_all(&self.0.manager.path).map_err(anyhow::Error::from)?;
            // in one step, for readers at the same time
            static N: AtomicU64 = AtomicU64::new(0);
            let tmp = self.0.manager.path.join(format!(".{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
            std::fs::write(&tmp, &b).and_then(|_| std::fs::rename(&tmp, &file)).map_err(anyhow::Error::from)?;
            Ok(Response::standin_new(StatusCode::OK, url, b.to_vec()))
        })
    }
}
