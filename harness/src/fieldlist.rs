//! Fields defined by the harness through the macro under test.


mod m1 {
use jester_maths::prime::PrimeField;
use jester_maths::prime_fields;
use mashup::*;
prime_fields!(
    pub F2("2", 10),
    pub F3("3", 10),
    pub F5("5", 10),
    pub F7("7", 10),
    pub F11("11", 10),
    pub F13("13", 10),
    pub F17("17", 10),
    pub F19("19", 10),
    pub F23("23", 10),
    pub F29("29", 10),
    pub F31("31", 10)
);
}
pub use m1::*;

mod m2 {
use jester_maths::prime::PrimeField;
use jester_maths::prime_fields;
use mashup::*;
prime_fields!(
    pub F37("37", 10),
    pub F41("41", 10),
    pub F43("43", 10),
    pub F47("47", 10),
    pub F53("53", 10),
    pub F59("59", 10),
    pub F61("61", 10),
    pub F67("67", 10),
    pub F71("71", 10),
    pub F73("73", 10),
    pub F79("79", 10)
);
}
pub use m2::*;

mod m3 {
use jester_maths::prime::PrimeField;
use jester_maths::prime_fields;
use mashup::*;
prime_fields!(
    pub F83("83", 10),
    pub F89("89", 10),
    pub F97("97", 10),
    pub F101("101", 10),
    pub F103("103", 10),
    pub F107("107", 10),
    pub F109("109", 10),
    pub F113("113", 10),
    pub F127("127", 10),
    pub F131("131", 10),
    pub F137("137", 10)
);
}
pub use m3::*;

mod m4 {
use jester_maths::prime::PrimeField;
use jester_maths::prime_fields;
use mashup::*;
prime_fields!(
    pub F139("139", 10),
    pub F149("149", 10),
    pub F151("151", 10),
    pub F157("157", 10),
    pub F163("163", 10),
    pub F167("167", 10),
    pub F173("173", 10),
    pub F179("179", 10),
    pub F181("181", 10),
    pub F191("191", 10),
    pub F193("193", 10)
);
}
pub use m4::*;

mod m5 {
use jester_maths::prime::PrimeField;
use jester_maths::prime_fields;
use mashup::*;
prime_fields!(
    pub F197("197", 10),
    pub F199("199", 10),
    pub F211("211", 10),
    pub F223("223", 10),
    pub F227("227", 10),
    pub F229("229", 10),
    pub F233("233", 10),
    pub F239("239", 10),
    pub F241("241", 10),
    pub F251("251", 10)
);
}
pub use m5::*;

mod m6 {
use jester_maths::prime::PrimeField;
use jester_maths::prime_fields;
use mashup::*;
prime_fields!(
    pub F257("257", 10),
    pub F65537("10001", 16),
    pub F65521("FFF1", 16),
    pub FB32m5("fffffffb", 16),
    pub FB32p15("4294967311", 10),
    pub FB64m59("ffffffffffffffc5", 16)
);
}
pub use m6::*;

mod m7 {
use jester_maths::prime::PrimeField;
use jester_maths::prime_fields;
use mashup::*;
prime_fields!(
    pub FB64p13("18446744073709551629", 10),
    pub FB63m25("9223372036854775783", 10),
    pub FB128m159("ffffffffffffffffffffffffffffff61", 16),
    pub FB96m17("7oiylpimjg5u2ca1ypb", 36),
    pub FB20m3("11111111111111111101", 2)
);
}
pub use m7::*;


#[macro_export]
macro_rules! small_fields {
    ($f:ident) => {
        $f!($crate::fieldlist::F2, "2", 10);
        $f!($crate::fieldlist::F3, "3", 10);
        $f!($crate::fieldlist::F5, "5", 10);
        $f!($crate::fieldlist::F7, "7", 10);
        $f!($crate::fieldlist::F11, "11", 10);
        $f!($crate::fieldlist::F13, "13", 10);
        $f!($crate::fieldlist::F17, "17", 10);
        $f!($crate::fieldlist::F19, "19", 10);
        $f!($crate::fieldlist::F23, "23", 10);
        $f!($crate::fieldlist::F29, "29", 10);
        $f!($crate::fieldlist::F31, "31", 10);
        $f!($crate::fieldlist::F37, "37", 10);
        $f!($crate::fieldlist::F41, "41", 10);
        $f!($crate::fieldlist::F43, "43", 10);
        $f!($crate::fieldlist::F47, "47", 10);
        $f!($crate::fieldlist::F53, "53", 10);
        $f!($crate::fieldlist::F59, "59", 10);
        $f!($crate::fieldlist::F61, "61", 10);
        $f!($crate::fieldlist::F67, "67", 10);
        $f!($crate::fieldlist::F71, "71", 10);
        $f!($crate::fieldlist::F73, "73", 10);
        $f!($crate::fieldlist::F79, "79", 10);
        $f!($crate::fieldlist::F83, "83", 10);
        $f!($crate::fieldlist::F89, "89", 10);
        $f!($crate::fieldlist::F97, "97", 10);
        $f!($crate::fieldlist::F101, "101", 10);
        $f!($crate::fieldlist::F103, "103", 10);
        $f!($crate::fieldlist::F107, "107", 10);
        $f!($crate::fieldlist::F109, "109", 10);
        $f!($crate::fieldlist::F113, "113", 10);
        $f!($crate::fieldlist::F127, "127", 10);
        $f!($crate::fieldlist::F131, "131", 10);
        $f!($crate::fieldlist::F137, "137", 10);
        $f!($crate::fieldlist::F139, "139", 10);
        $f!($crate::fieldlist::F149, "149", 10);
        $f!($crate::fieldlist::F151, "151", 10);
        $f!($crate::fieldlist::F157, "157", 10);
        $f!($crate::fieldlist::F163, "163", 10);
        $f!($crate::fieldlist::F167, "167", 10);
        $f!($crate::fieldlist::F173, "173", 10);
        $f!($crate::fieldlist::F179, "179", 10);
        $f!($crate::fieldlist::F181, "181", 10);
        $f!($crate::fieldlist::F191, "191", 10);
        $f!($crate::fieldlist::F193, "193", 10);
        $f!($crate::fieldlist::F197, "197", 10);
        $f!($crate::fieldlist::F199, "199", 10);
        $f!($crate::fieldlist::F211, "211", 10);
        $f!($crate::fieldlist::F223, "223", 10);
        $f!($crate::fieldlist::F227, "227", 10);
        $f!($crate::fieldlist::F229, "229", 10);
        $f!($crate::fieldlist::F233, "233", 10);
        $f!($crate::fieldlist::F239, "239", 10);
        $f!($crate::fieldlist::F241, "241", 10);
        $f!($crate::fieldlist::F251, "251", 10);
    };
}

#[macro_export]
macro_rules! medium_fields {
    ($f:ident) => {
        $f!($crate::fieldlist::F257, "257", 10);
        $f!($crate::fieldlist::F65537, "65537", 10);
        $f!($crate::fieldlist::F65521, "65521", 10);
        $f!($crate::fieldlist::FB32m5, "4294967291", 10);
        $f!($crate::fieldlist::FB32p15, "4294967311", 10);
        $f!($crate::fieldlist::FB64m59, "18446744073709551557", 10);
        $f!($crate::fieldlist::FB64p13, "18446744073709551629", 10);
        $f!($crate::fieldlist::FB63m25, "9223372036854775783", 10);
        $f!($crate::fieldlist::FB128m159, "340282366920938463463374607431768211297", 10);
        $f!($crate::fieldlist::FB96m17, "79228162514264337593543950319", 10);
        $f!($crate::fieldlist::FB20m3, "1048573", 10);
    };
}

#[macro_export]
macro_rules! crate_small_fields {
    ($f:ident) => {
        $f!(jester_maths::prime::Mersenne2, "3", 10);
        $f!(jester_maths::prime::Mersenne3, "7", 10);
        $f!(jester_maths::prime::Mersenne5, "31", 10);
    };
}

#[macro_export]
macro_rules! crate_fields {
    ($f:ident) => {
        $f!(jester_maths::prime::Mersenne13, "8191", 10);
        $f!(jester_maths::prime::Mersenne17, "131071", 10);
        $f!(jester_maths::prime::Mersenne19, "524287", 10);
        $f!(jester_maths::prime::Mersenne31, "2147483647", 10);
        $f!(jester_maths::prime::Mersenne61, "2305843009213693951", 10);
        $f!(jester_maths::prime::Mersenne89, "618970019642690137449562111", 10);
        $f!(jester_maths::prime::Mersenne107, "162259276829213363391578010288127", 10);
        $f!(jester_maths::prime::Mersenne127, "170141183460469231731687303715884105727", 10);
    };
}

#[macro_export]
macro_rules! ietf_fields {
    ($f:ident) => {
        $f!(jester_maths::prime::IetfGroup1, "B10B8F96A080E01DDE92DE5EAE5D54EC52C99FBCFB06A3C69A6A9DCA52D23B616073E28675A23D189838EF1E2EE652C013ECB4AEA906112324975C3CD49B83BFACCBDD7D90C4BD7098488E9C219A73724EFFD6FAE5644738FAA31A4FF55BCCC0A151AF5F0DC8B4BD45BF37DF365C1A65E68CFDA76D4DA708DF1FB2BC2E4A4371", 16);
        $f!(jester_maths::prime::IetfGroup2, "AD107E1E9123A9D0D660FAA79559C51FA20D64E5683B9FD1B54B1597B61D0A75E6FA141DF95A56DBAF9A3C407BA1DF15EB3D688A309C180E1DE6B85A1274A0A66D3F8152AD6AC2129037C9EDEFDA4DF8D91E8FEF55B7394B7AD5B7D0B6C12207C9F98D11ED34DBF6C6BA0B2C8BBC27BE6A00E0A0B9C49708B3BF8A317091883681286130BC8985DB1602E714415D9330278273C7DE31EFDC7310F7121FD5A07415987D9ADC0A486DCDF93ACC44328387315D75E198C641A480CD86A1B9E587E8BE60E69CC928B2B9C52172E413042E9B23F10B0E16E79763C9B53DCF4BA80A29E3FB73C16B8E75B97EF363E2FFA31F71CF9DE5384E71B81C0AC4DFFE0C10E64F", 16);
        $f!(jester_maths::prime::IetfGroup3, "87A8E61DB4B6663CFFBBD19C651959998CEEF608660DD0F25D2CEED4435E3B00E00DF8F1D61957D4FAF7DF4561B2AA3016C3D91134096FAA3BF4296D830E9A7C209E0C6497517ABD5A8A9D306BCF67ED91F9E6725B4758C022E0B1EF4275BF7B6C5BFC11D45F9088B941F54EB1E59BB8BC39A0BF12307F5C4FDB70C581B23F76B63ACAE1CAA6B7902D52526735488A0EF13C6D9A51BFA4AB3AD8347796524D8EF6A167B5A41825D967E144E5140564251CCACB83E6B486F6B3CA3F7971506026C0B857F689962856DED4010ABD0BE621C3A3960A54E710C375F26375D7014103A4B54330C198AF126116D2276E11715F693877FAD7EF09CADB094AE91E1A1597", 16);
    };
}
