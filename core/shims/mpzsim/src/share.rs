//! mpz-share-conversion, with an ideal conversion over the parties' channel.
use crate::{
    common::{future::{new_output, MaybeDone, Sender}, Context, Flush},
    fields::{Field, UniformRand},
};
use async_trait::async_trait;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::{collections::VecDeque, marker::PhantomData};

#[derive(Debug, thiserror::Error)]
#[error("share conversion error: {0}")]
pub struct ShareConversionError(Box<dyn std::error::Error + Send + Sync>);
fn err<E: Into<Box<dyn std::error::Error + Send + Sync>>>(e: E) -> ShareConversionError {
    ShareConversionError(e.into())
}

#[derive(Debug)]
pub struct A2MOutput<F> {
    pub shares: Vec<F>,
}
#[derive(Debug)]
pub struct M2AOutput<F> {
    pub shares: Vec<F>,
}
type Fut<T> = MaybeDone<T>;

pub trait AdditiveToMultiplicative<F> {
    type Error: std::error::Error + Send + Sync + 'static;
    type Future: crate::common::future::Output<Ok = A2MOutput<F>, Err = crate::common::future::Canceled>
        + std::future::Future<Output = Result<A2MOutput<F>, crate::common::future::Canceled>>
        + Unpin
        + Send
        + 'static;
    fn alloc(&mut self, count: usize) -> Result<(), Self::Error>;
    fn queue_to_multiplicative(&mut self, inputs: &[F]) -> Result<Self::Future, Self::Error>;
}
pub trait MultiplicativeToAdditive<F> {
    type Error: std::error::Error + Send + Sync + 'static;
    type Future: crate::common::future::Output<Ok = M2AOutput<F>, Err = crate::common::future::Canceled>
        + std::future::Future<Output = Result<M2AOutput<F>, crate::common::future::Canceled>>
        + Unpin
        + Send
        + 'static;
    fn alloc(&mut self, count: usize) -> Result<(), Self::Error>;
    fn queue_to_additive(&mut self, inputs: &[F]) -> Result<Self::Future, Self::Error>;
}
pub trait ShareConvert<F>: AdditiveToMultiplicative<F> + MultiplicativeToAdditive<F> {}
impl<F, C: AdditiveToMultiplicative<F> + MultiplicativeToAdditive<F>> ShareConvert<F> for C {}

enum Item<F> {
    A2M(Vec<F>, Sender<A2MOutput<F>>),
    M2A(Vec<F>, Sender<M2AOutput<F>>),
}
pub const MAGIC: u64 = u64::from_le_bytes(*b"ideal sh");
#[derive(Serialize, Deserialize)]
struct Msg<F> {
    magic: u64,
    /// Whether additive shares are converted; the sender's shares before and after.
    items: Vec<(bool, Vec<F>, Vec<F>)>,
    allocated: (usize, usize),
}
/// Everything both parties need to do; `SENDER` picks the outputs. As with the
/// real protocol, only what was allocated can be converted (if `strict`).
pub struct Converter<F, const SENDER: bool> {
    a2m: usize,
    m2a: usize,
    queue: VecDeque<Item<F>>,
    news: bool,
    strict: bool,
}
impl<F, const S: bool> std::fmt::Debug for Converter<F, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Converter")
    }
}
impl<F, const S: bool> Default for Converter<F, S> {
    fn default() -> Self {
        Converter { a2m: 0, m2a: 0, queue: VecDeque::new(), news: false, strict: false }
    }
}
impl<F: Field, const S: bool> AdditiveToMultiplicative<F> for Converter<F, S> {
    type Error = ShareConversionError;
    type Future = Fut<A2MOutput<F>>;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error> {
        self.a2m += n;
        self.news = true;
        Ok(())
    }
    fn queue_to_multiplicative(&mut self, x: &[F]) -> Result<Self::Future, Self::Error> {
        if self.strict {
            self.a2m = self.a2m.checked_sub(x.len()).ok_or_else(|| err("more conversions than were allocated"))?;
        }
        let (s, f) = new_output();
        self.queue.push_back(Item::A2M(x.to_vec(), s));
        Ok(f)
    }
}
impl<F: Field, const S: bool> MultiplicativeToAdditive<F> for Converter<F, S> {
    type Error = ShareConversionError;
    type Future = Fut<M2AOutput<F>>;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error> {
        self.m2a += n;
        self.news = true;
        Ok(())
    }
    fn queue_to_additive(&mut self, x: &[F]) -> Result<Self::Future, Self::Error> {
        if self.strict {
            self.m2a = self.m2a.checked_sub(x.len()).ok_or_else(|| err("more conversions than were allocated"))?;
        }
        let (s, f) = new_output();
        self.queue.push_back(Item::M2A(x.to_vec(), s));
        Ok(f)
    }
}
fn nonzero<F: Field + UniformRand>() -> F {
    loop {
        let x = F::rand(&mut rand::rng());
        if x.inverse().is_some() {
            return x;
        }
    }
}
#[async_trait]
impl<F: Field + UniformRand + Serialize + DeserializeOwned, const S: bool> Flush for Converter<F, S> {
    type Error = ShareConversionError;
    fn wants_flush(&self) -> bool {
        self.news || !self.queue.is_empty()
    }
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), Self::Error> {
        use crate::channel::{IoStreamExt, SinkExt};
        self.news = false;
        let queue = std::mem::take(&mut self.queue);
        let deliver = |item: Item<F>, shares: Vec<F>| match item {
            Item::A2M(_, s) => s.send(A2MOutput { shares }),
            Item::M2A(_, s) => s.send(M2AOutput { shares }),
        };
        if S {
            let mut msg = Msg { magic: MAGIC, items: vec![], allocated: (self.a2m, self.m2a) };
            for item in &queue {
                let (kind, x) = match item {
                    Item::A2M(x, _) => (true, x),
                    Item::M2A(x, _) => (false, x),
                };
                msg.items.push((kind, x.clone(), x.iter().map(|_| nonzero()).collect()));
            }
            ctx.io_mut().send(&msg).await.map_err(err)?;
            for (item, (_, _, out)) in queue.into_iter().zip(msg.items) {
                deliver(item, out);
            }
        } else {
            let msg: Msg<F> = ctx.io_mut().expect_next().await.map_err(err)?;
            if msg.magic != MAGIC || msg.items.len() != queue.len() || msg.allocated != (self.a2m, self.m2a) {
                return Err(err("the parties convert different numbers of shares"));
            }
            for (item, (kind, xs, outs)) in queue.into_iter().zip(msg.items) {
                let (mine, ys) = match &item {
                    Item::A2M(y, _) => (true, y.clone()),
                    Item::M2A(y, _) => (false, y.clone()),
                };
                if mine != kind || xs.len() != ys.len() || outs.len() != ys.len() {
                    return Err(err("the parties convert different shares"));
                }
                let mut shares = vec![];
                for ((x, o), y) in xs.into_iter().zip(outs).zip(ys) {
                    shares.push(if kind {
                        (x + y) * o.inverse().ok_or_else(|| err("a zero share"))?
                    } else {
                        x * y + -o
                    });
                }
                deliver(item, shares);
            }
        }
        Ok(())
    }
}

macro_rules! wrap {
    ($n:ident, $s:expr) => {
        pub struct $n<T, F> {
            inner: Converter<F, $s>,
            _ole: PhantomData<fn() -> T>,
        }
        impl<T, F> std::fmt::Debug for $n<T, F> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($n))
            }
        }
        impl<T, F> $n<T, F> {
            pub fn new(_ole: T) -> Self {
                $n { inner: Converter { strict: true, ..Converter::default() }, _ole: PhantomData }
            }
        }
        impl<T, F: Field> AdditiveToMultiplicative<F> for $n<T, F> {
            type Error = ShareConversionError;
            type Future = Fut<A2MOutput<F>>;
            fn alloc(&mut self, n: usize) -> Result<(), Self::Error> {
                AdditiveToMultiplicative::alloc(&mut self.inner, n)
            }
            fn queue_to_multiplicative(&mut self, x: &[F]) -> Result<Self::Future, Self::Error> {
                self.inner.queue_to_multiplicative(x)
            }
        }
        impl<T, F: Field> MultiplicativeToAdditive<F> for $n<T, F> {
            type Error = ShareConversionError;
            type Future = Fut<M2AOutput<F>>;
            fn alloc(&mut self, n: usize) -> Result<(), Self::Error> {
                MultiplicativeToAdditive::alloc(&mut self.inner, n)
            }
            fn queue_to_additive(&mut self, x: &[F]) -> Result<Self::Future, Self::Error> {
                self.inner.queue_to_additive(x)
            }
        }
        #[async_trait]
        impl<T: 'static, F: Field + UniformRand + Serialize + DeserializeOwned> Flush for $n<T, F> {
            type Error = ShareConversionError;
            fn wants_flush(&self) -> bool {
                self.inner.wants_flush()
            }
            async fn flush(&mut self, ctx: &mut Context) -> Result<(), Self::Error> {
                self.inner.flush(ctx).await
            }
        }
    };
}
wrap!(ShareConversionSender, true);
wrap!(ShareConversionReceiver, false);

pub mod ideal {
    pub type IdealShareConvertSender<F> = super::Converter<F, true>;
    pub type IdealShareConvertReceiver<F> = super::Converter<F, false>;
    pub fn ideal_share_convert<F>(_seed: crate::core::Block) -> (IdealShareConvertSender<F>, IdealShareConvertReceiver<F>) {
        Default::default()
    }
}
