//! What the derive macros are given. Written by tools/mkclients.py.
#![allow(dead_code)]
use yule_log::model::msg::UlogMessage;
use yule_log::model::CChar;
#[derive(yule_log::ULogData)]
pub struct Inner {
    pub a: u8,
    pub b: Vec<i16>,
}
#[derive(yule_log::ULogData)]
#[yule_log(subscription_name = "pose_estimate", multi_id = 2)]
pub struct VehiclePose {
    pub timestamp: u64,
    pub x: f32,
    #[yule_log(field_name = "y_raw")]
    pub y: Option<i16>,
    pub name: Vec<CChar>,
    #[yule_log(field_name = "part")]
    pub inner: Inner,
    pub many: Option<Vec<Inner>>,
    pub armed: bool,
    pub one: Option<Inner>,
}
#[derive(yule_log::ULogData)]
#[yule_log(subscription_name = "pose_estimate")]
pub struct FirstPose {
    pub x: Option<f64>,
    pub parts: Vec<Inner>,
}
#[derive(yule_log::ULogData)]
pub struct GpsRawData2 {
    pub c: CChar,
    #[yule_log(field_name = "i8")]
    pub i_8: i8,
    #[yule_log(field_name = "i16")]
    pub i_16: i16,
    #[yule_log(field_name = "i32")]
    pub i_32: i32,
    #[yule_log(field_name = "i64")]
    pub i_64: i64,
    #[yule_log(field_name = "u16")]
    pub u_16: u16,
    #[yule_log(field_name = "u32")]
    pub u_32: Option<u32>,
    pub d: f64,
}
#[derive(yule_log::ULogData)]
#[yule_log(multi_id = 1)]
pub struct Arrays {
    pub v_i8: Vec<i8>,
    pub v_i32: Vec<i32>,
    pub v_i64: Vec<i64>,
    pub v_u8: Vec<u8>,
    pub v_u16: Option<Vec<u16>>,
    pub v_u32: Vec<u32>,
    pub v_u64: Vec<u64>,
    pub v_f32: Vec<f32>,
    pub v_f64: Vec<f64>,
    pub v_bool: Vec<bool>,
}
#[derive(yule_log::ULogData)]
#[yule_log(multi_id = 255)]
pub struct Maybe {
    pub timestamp: Option<u64>,
    pub set: Option<bool>,
    pub text: Option<Vec<CChar>>,
}
#[derive(yule_log::ULogData)]
#[yule_log(subscription_name = "Deep.1")]
pub struct Deep {
    pub opts: Vec<Maybe>,
    pub maybe: Maybe,
    #[yule_log(field_name = "_padding0")]
    pub pose: Option<VehiclePose>,
    pub Z: u8,
    pub _q: Option<Vec<f32>>,
}
#[derive(yule_log::ULogData)]
pub struct Paths {
    pub o: std::option::Option<u8>,
    pub v: std::vec::Vec<i16>,
    pub w: ::std::option::Option<::std::vec::Vec<crate::Maybe>>,
    pub x: core::option::Option<crate::Inner>,
}
#[derive(yule_log::ULogData)]
pub struct Empty {
}
#[derive(yule_log::ULogData)]
pub struct GPSFix2D {
    #[yule_log(field_name = "HDOP")]
    pub hdop: f32,
    pub Lat: Option<f64>,
}
#[derive(yule_log::ULogMessages)]
pub enum All {
    FirstPose(FirstPose),
    Pose(VehiclePose),
    Gps(GpsRawData2),
    #[yule_log(forward_other)]
    Other(UlogMessage),
}
#[derive(yule_log::ULogMessages)]
pub enum Few {
    Gps(GpsRawData2),
    A(Arrays),
}
#[derive(yule_log::ULogMessages)]
pub enum RestFirst {
    #[yule_log(forward_other)]
    Rest(UlogMessage),
    Pose(VehiclePose),
}
#[derive(yule_log::ULogMessages)]
pub enum One {
    Only(Maybe),
}
#[derive(yule_log::ULogMessages)]
pub enum ByPath {
    P(crate::Paths),
    E(self::Empty),
    #[yule_log(forward_other)]
    Rest(UlogMessage),
}
#[derive(yule_log::ULogMessages)]
pub enum RestMid {
    Deep(Deep),
    #[yule_log(forward_other)]
    Y(UlogMessage),
    Z(Inner),
}
