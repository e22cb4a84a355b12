//! The item types and storages the growable world runs over.
use sim_base::dynarr::{Make, Ty};
use sim_base::storage::SimBuffer;
use narrow::{
    array::Array, bitmap::Bitmap, buffer::VecBuffer, collection::flatten::Flatten,
    fixed_size::FixedSizeArray, layout::variable_size_list::VariableSizeList,
    nullability::{NonNullable, Nullable}, offset::Offsets, validity::Validity,
};
use sim_base::storage::SimVec;

macro_rules! arrays {
    ($v:ident; $b:ty, $sim:expr, $tag:literal; $($t:ty),* $(,)?) => {
        $( $v.push(Box::new(Ty::<Array<$t, $b>>(concat!($tag, stringify!($t)), $sim, None))); )*
    };
}

pub fn growables() -> Vec<Box<dyn Make>> {
    let mut v: Vec<Box<dyn Make>> = Vec::new();
    type FA = FixedSizeArray<u16, 3>;
    arrays!(v; VecBuffer, false, "Vec:";
        u8, i16, u32, f64, u128, usize, FA, bool,
        Option<u8>, Option<i64>, Option<bool>, Option<FA>,
        [u8; 3], [bool; 3], [bool; 8], [Option<i32>; 3], Option<[u32; 2]>, Option<[Option<u16>; 3]>,
        [[u8; 2]; 3], Option<[bool; 5]>, [Option<[bool; 3]>; 2],
        Vec<u8>, Vec<bool>, Option<Vec<u16>>, Vec<Option<i32>>, Option<Vec<Option<bool>>>,
        Vec<Vec<u8>>, Option<Vec<Option<Vec<Option<u8>>>>>, Vec<Option<[bool; 3]>>,
        [Vec<u8>; 2], [Option<Vec<u8>>; 2], Option<[Vec<bool>; 2]>, Vec<[Option<Vec<u8>>; 2]>
    );
    arrays!(v; SimBuffer, true, "Sim:";
        u8, u64, FA, bool, Option<u32>, Option<bool>,
        [u16; 3], [bool; 3], [Option<u8>; 2], Option<[u32; 2]>, Option<[Option<bool>; 3]>,
        Vec<u8>, Vec<bool>, Option<Vec<u16>>, Vec<Option<u8>>, Option<Vec<Option<u64>>>,
        Vec<Vec<u8>>, Option<Vec<Option<Vec<bool>>>>, [Vec<u8>; 2], Option<[Option<Vec<u8>>; 2]>,
        Vec<Option<[bool; 3]>>
    );
    v.push(Box::new(Ty::<Bitmap<VecBuffer>>("Vec:Bitmap", false, Some(Clone::clone))));
    v.push(Box::new(Ty::<Bitmap<SimBuffer>>("Sim:Bitmap", true, Some(Clone::clone))));
    v.push(Box::new(Ty::<Flatten<Vec<u8>, 3>>("Vec:Flatten<u8,3>", false, Some(Clone::clone))));
    v.push(Box::new(Ty::<Flatten<Bitmap, 5>>("Vec:Flatten<Bitmap,5>", false, Some(Clone::clone))));
    v.push(Box::new(Ty::<Flatten<SimVec<u32>, 2>>("Sim:Flatten<u32,2>", true, Some(Clone::clone))));
    v.push(Box::new(Ty::<Validity<Bitmap>>("Vec:Validity<Bitmap>", false, None)));
    v.push(Box::new(Ty::<Validity<Vec<u32>>>("Vec:Validity<u32>", false, None)));
    v.push(Box::new(Ty::<Offsets<Vec<u8>, i64>>("Vec:Offsets<u8,i64>", false, None)));
    v.push(Box::new(Ty::<Offsets<SimVec<u16>, i64, SimBuffer>>("Sim:Offsets<u16,i64>", true, None)));
    v.push(Box::new(Ty::<VariableSizeList<u32, Nullable, i64, VecBuffer>>("Vec:List<u32,null,i64>", false, None)));
    v.push(Box::new(Ty::<VariableSizeList<bool, NonNullable, i64, SimBuffer>>("Sim:List<bool,i64>", true, None)));
    v.push(Box::new(Ty::<Vec<u64>>("Vec:plain<u64>", false, Some(Clone::clone))));
    v.push(Box::new(Ty::<Vec<bool>>("Vec:plain<bool>", false, Some(Clone::clone))));
    v.push(Box::new(Ty::<Vec<Vec<u8>>>("Vec:plain<Vec<u8>>", false, Some(Clone::clone))));
    v
}
