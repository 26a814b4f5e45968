//! Offline stand-in for `hyper-tls`: plain TCP only, no TLS library needed.
//! Only the names used by the code under test are provided.
pub type HttpsConnector<T> = Plain<T>;

#[derive(Clone, Debug)]
pub struct Plain<T>(T);

impl Plain<hyper::client::HttpConnector> {
    pub fn new() -> Self { Plain(hyper::client::HttpConnector::new()) }
}

impl<T> hyper::service::Service<hyper::Uri> for Plain<T>
    where T: hyper::service::Service<hyper::Uri>
{
    type Response = T::Response;
    type Error = T::Error;
    type Future = T::Future;
    fn poll_ready(&mut self, cx: &mut std::task::Context<'_>)
        -> std::task::Poll<Result<(), Self::Error>>
    { self.0.poll_ready(cx) }
    fn call(&mut self, dst: hyper::Uri) -> Self::Future { self.0.call(dst) }
}
