//! mpz-ot and mpz-ole: nothing is transferred, the ideal conversions and
//! machines above them need none.
use crate::{
    common::{Context, Flush},
    core::Block,
};
use async_trait::async_trait;
use std::{convert::Infallible, fmt, marker::PhantomData};

macro_rules! idle {
    ($n:ident [$($g:ident)*] $(, [$($h:ident)*] $tr:ty)*) => {
        impl<$($g),*> fmt::Debug for $n<$($g),*> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($n))
            }
        }
        #[async_trait]
        impl<$($g: 'static),*> Flush for $n<$($g),*> {
            type Error = Infallible;
            fn wants_flush(&self) -> bool {
                false
            }
            async fn flush(&mut self, _ctx: &mut Context) -> Result<(), Infallible> {
                Ok(())
            }
        }
        $(impl<$($h),*> $tr for $n<$($h),*> {})*
    };
}

pub mod rcot {
    use super::*;
    pub trait RCOTSender<T> {}
    pub trait RCOTReceiver<C, T> {}
    pub mod shared {
        use super::*;
        pub struct SharedRCOTSender<S, T>(PhantomData<fn() -> (S, T)>);
        pub struct SharedRCOTReceiver<S, C, T>(PhantomData<fn() -> (S, C, T)>);
        impl<S, T> SharedRCOTSender<S, T> {
            pub fn new(_s: S) -> Self {
                Self(PhantomData)
            }
        }
        impl<S, C, T> SharedRCOTReceiver<S, C, T> {
            pub fn new(_s: S) -> Self {
                Self(PhantomData)
            }
        }
        impl<S, T> Clone for SharedRCOTSender<S, T> {
            fn clone(&self) -> Self {
                Self(PhantomData)
            }
        }
        impl<S, C, T> Clone for SharedRCOTReceiver<S, C, T> {
            fn clone(&self) -> Self {
                Self(PhantomData)
            }
        }
        idle!(SharedRCOTSender [S T], [S T] RCOTSender<T>);
        idle!(SharedRCOTReceiver [S C T], [S C T] RCOTReceiver<C, T>);
    }
}
pub mod rot {
    use super::*;
    macro_rules! hold {
        ($($n:ident),*) => {$(
            pub struct $n<S>(PhantomData<fn() -> S>);
            impl<S> $n<S> {
                pub fn new(_s: S) -> Self {
                    Self(PhantomData)
                }
            }
            idle!($n [S]);
        )*};
    }
    pub mod any {
        use super::*;
        hold!(AnySender, AnyReceiver);
    }
    pub mod randomize {
        use super::*;
        hold!(RandomizeRCOTSender, RandomizeRCOTReceiver);
    }
    pub mod derand {
        use super::*;
        hold!(DerandCOTSender, DerandCOTReceiver);
    }
}
pub mod cot {
    pub use super::rot::derand::{DerandCOTReceiver, DerandCOTSender};
}
pub mod chou_orlandi {
    use super::*;
    #[derive(Default)]
    pub struct Sender;
    #[derive(Default)]
    pub struct Receiver;
    idle!(Sender []);
    idle!(Receiver []);
}
pub mod kos {
    use super::*;
    #[derive(Debug, Default, Clone)]
    pub struct SenderConfig;
    #[derive(Debug, Default, Clone)]
    pub struct ReceiverConfig;
    pub struct Sender<B>(PhantomData<fn() -> B>);
    pub struct Receiver<B>(PhantomData<fn() -> B>);
    impl<B> Sender<B> {
        pub fn new(_c: SenderConfig, _delta: Block, _base: B) -> Self {
            Self(PhantomData)
        }
    }
    impl<B> Receiver<B> {
        pub fn new(_c: ReceiverConfig, _base: B) -> Self {
            Self(PhantomData)
        }
    }
    idle!(Sender [B], [B] super::rcot::RCOTSender<Block>);
    idle!(Receiver [B], [B] super::rcot::RCOTReceiver<bool, Block>);
}
pub mod ferret {
    use super::*;
    #[derive(Debug, Clone, Copy)]
    pub enum LpnType {
        Uniform,
        Regular,
    }
    #[derive(Debug, Default, Clone)]
    pub struct FerretConfig;
    #[derive(Debug, Default, Clone)]
    pub struct FerretConfigBuilder;
    impl FerretConfig {
        pub fn builder() -> FerretConfigBuilder {
            FerretConfigBuilder
        }
    }
    impl FerretConfigBuilder {
        pub fn lpn_type(&mut self, _t: LpnType) -> &mut Self {
            self
        }
        pub fn build(&self) -> Result<FerretConfig, Infallible> {
            Ok(FerretConfig)
        }
    }
    pub struct Sender<B>(PhantomData<fn() -> B>);
    pub struct Receiver<B>(PhantomData<fn() -> B>);
    impl<B> Sender<B> {
        pub fn new(_c: FerretConfig, _seed: Block, _base: B) -> Self {
            Self(PhantomData)
        }
    }
    impl<B> Receiver<B> {
        pub fn new(_c: FerretConfig, _seed: Block, _base: B) -> Self {
            Self(PhantomData)
        }
    }
    idle!(Sender [B], [B] super::rcot::RCOTSender<Block>);
    idle!(Receiver [B], [B] super::rcot::RCOTReceiver<bool, Block>);
}
pub mod ole {
    use super::*;
    pub struct Sender<S>(PhantomData<fn() -> S>);
    pub struct Receiver<S>(PhantomData<fn() -> S>);
    impl<S> Sender<S> {
        pub fn new(_seed: Block, _s: S) -> Self {
            Self(PhantomData)
        }
    }
    impl<S> Receiver<S> {
        pub fn new(_s: S) -> Self {
            Self(PhantomData)
        }
    }
    idle!(Sender [S]);
    idle!(Receiver [S]);
}
/// For tests of single parties.
pub mod ideal {
    pub mod rcot {
        use super::super::*;
        #[derive(Clone)]
        pub struct IdealRCOTSender;
        #[derive(Clone)]
        pub struct IdealRCOTReceiver;
        idle!(IdealRCOTSender [], [] crate::ot::rcot::RCOTSender<Block>);
        idle!(IdealRCOTReceiver [], [] crate::ot::rcot::RCOTReceiver<bool, Block>);
        pub fn ideal_rcot(_seed: Block, _delta: Block) -> (IdealRCOTSender, IdealRCOTReceiver) {
            (IdealRCOTSender, IdealRCOTReceiver)
        }
    }
}
