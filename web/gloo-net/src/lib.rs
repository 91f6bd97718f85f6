//! Requests answered by a server of the harness.
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex, OnceLock};
use std::task::{Context, Poll};

/// Answers a request for a range (or for everything) with a status and a body, or breaks the connection.
pub trait Server: Send + Sync {
    fn answer(&self, range: Option<&str>) -> Result<(u16, Vec<u8>), String>;
    /// how often an answer is pending before it is there
    fn pending(&self) -> usize {
        0
    }
}
type Servers = Mutex<HashMap<String, Arc<dyn Server>>>;
fn servers() -> &'static Servers {
    static S: OnceLock<Servers> = OnceLock::new();
    S.get_or_init(Default::default)
}
pub fn serve(url: &str, server: Arc<dyn Server>) {
    servers().lock().unwrap().insert(url.to_string(), server);
}
pub fn close(url: &str) {
    servers().lock().unwrap().remove(url);
}

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

struct Pend(usize);
impl Future for Pend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

pub mod http {
    use super::{servers, Error, Pend, Server};
    use std::sync::Arc;

    pub struct Headers(Vec<(String, String)>);
    impl Headers {
        pub fn get(&self, name: &str) -> Option<String> {
            self.0.iter().find(|h| h.0.eq_ignore_ascii_case(name)).map(|h| h.1.clone())
        }
    }
    pub struct RequestBuilder {
        url: String,
        range: Option<String>,
    }
    impl RequestBuilder {
        pub fn new(url: &str) -> RequestBuilder {
            RequestBuilder { url: url.to_string(), range: None }
        }
        pub fn header(mut self, name: &str, value: &str) -> RequestBuilder {
            if name.eq_ignore_ascii_case("range") {
                self.range = Some(value.to_string());
            }
            self
        }
        pub async fn send(self) -> Result<Response, Error> {
            let server: Arc<dyn Server> =
                servers().lock().unwrap().get(&self.url).cloned().ok_or_else(|| Error("no such host".into()))?;
            Pend(server.pending()).await;
            let (status, body) = server.answer(self.range.as_deref()).map_err(Error)?;
            Ok(Response { status, body })
        }
    }
    pub struct Response {
        status: u16,
        body: Vec<u8>,
    }
    impl Response {
        pub fn ok(&self) -> bool {
            (200..300).contains(&self.status)
        }
        pub fn status(&self) -> u16 {
            self.status
        }
        pub fn status_text(&self) -> String {
            self.status.to_string()
        }
        pub fn headers(&self) -> Headers {
            Headers(vec![("content-length".into(), self.body.len().to_string())])
        }
        pub async fn binary(&self) -> Result<Vec<u8>, Error> {
            Ok(self.body.clone())
        }
    }
}
