//! Stand-in for the `wcs` crate, which is not available offline: it computes nothing and only records the
//! parameters it is given.
use serde::{Deserialize, Serialize};

pub mod error {
    #[derive(Debug)]
    pub enum Error {
        Unavailable,
    }
}

#[derive(Debug, Clone, Copy)]
pub struct ImgXY;

#[derive(Debug, Clone, Copy)]
pub struct LonLat;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "UPPERCASE")]
pub struct WCSParams {
    pub naxis: i64,
    pub ctype1: String,
    pub naxis1: Option<i64>,
    pub naxis2: Option<i64>,
    pub naxis3: Option<i64>,
    pub naxis4: Option<i64>,
    pub a_order: Option<i64>,
    pub b_order: Option<i64>,
    pub ap_order: Option<i64>,
    pub bp_order: Option<i64>,
    pub ctype2: Option<String>,
    pub ctype3: Option<String>,
    pub radesys: Option<String>,
    pub lonpole: Option<f64>,
    pub latpole: Option<f64>,
    pub equinox: Option<f64>,
    pub crpix1: Option<f64>,
    pub crpix2: Option<f64>,
    pub crpix3: Option<f64>,
    pub crval1: Option<f64>,
    pub crval2: Option<f64>,
    pub crval3: Option<f64>,
    pub crota1: Option<f64>,
    pub crota2: Option<f64>,
    pub crota3: Option<f64>,
    pub cdelt1: Option<f64>,
    pub cdelt2: Option<f64>,
    pub cdelt3: Option<f64>,
    pub cd1_1: Option<f64>,
    pub cd1_2: Option<f64>,
    pub cd1_3: Option<f64>,
    pub cd2_1: Option<f64>,
    pub cd2_2: Option<f64>,
    pub cd2_3: Option<f64>,
    pub cd3_1: Option<f64>,
    pub cd3_2: Option<f64>,
    pub cd3_3: Option<f64>,
    pub pc1_1: Option<f64>,
    pub pc1_2: Option<f64>,
    pub pc1_3: Option<f64>,
    pub pc2_1: Option<f64>,
    pub pc2_2: Option<f64>,
    pub pc2_3: Option<f64>,
    pub pc3_1: Option<f64>,
    pub pc3_2: Option<f64>,
    pub pc3_3: Option<f64>,
    pub pv1_0: Option<f64>,
    pub pv1_1: Option<f64>,
    pub pv1_2: Option<f64>,
    pub pv1_3: Option<f64>,
    pub pv1_4: Option<f64>,
    pub pv2_0: Option<f64>,
    pub pv2_1: Option<f64>,
    pub pv2_2: Option<f64>,
    pub pv2_3: Option<f64>,
    pub pv2_4: Option<f64>,
    pub pv2_5: Option<f64>,
    pub pv2_6: Option<f64>,
    pub pv2_7: Option<f64>,
    pub pv2_8: Option<f64>,
    pub pv2_9: Option<f64>,
    pub pv2_10: Option<f64>,
    pub pv2_11: Option<f64>,
    pub pv2_12: Option<f64>,
    pub pv2_13: Option<f64>,
    pub pv2_14: Option<f64>,
    pub pv2_15: Option<f64>,
    pub pv2_16: Option<f64>,
    pub pv2_17: Option<f64>,
    pub pv2_18: Option<f64>,
    pub pv2_19: Option<f64>,
    pub pv2_20: Option<f64>,
    pub a_0_2: Option<f64>,
    pub a_0_3: Option<f64>,
    pub a_1_1: Option<f64>,
    pub a_1_2: Option<f64>,
    pub a_2_0: Option<f64>,
    pub a_2_1: Option<f64>,
    pub a_3_0: Option<f64>,
    pub b_0_2: Option<f64>,
    pub b_0_3: Option<f64>,
    pub b_1_1: Option<f64>,
    pub b_1_2: Option<f64>,
    pub b_2_0: Option<f64>,
    pub b_2_1: Option<f64>,
    pub b_3_0: Option<f64>,
    pub ap_0_2: Option<f64>,
    pub ap_0_3: Option<f64>,
    pub ap_1_1: Option<f64>,
    pub ap_1_2: Option<f64>,
    pub ap_2_0: Option<f64>,
    pub ap_2_1: Option<f64>,
    pub ap_3_0: Option<f64>,
    pub bp_0_2: Option<f64>,
    pub bp_0_3: Option<f64>,
    pub bp_1_1: Option<f64>,
    pub bp_1_2: Option<f64>,
    pub bp_2_0: Option<f64>,
    pub bp_2_1: Option<f64>,
    pub bp_3_0: Option<f64>,
}

#[derive(Debug)]
pub struct WCS {
    pub params: WCSParams,
}

impl WCS {
    // the keywords of the parameters
    pub const INTEGERS: &[&str] = &["NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "NAXIS4", "A_ORDER", "B_ORDER", "AP_ORDER", "BP_ORDER"];
    pub const STRINGS: &[&str] = &["CTYPE1", "CTYPE2", "CTYPE3", "RADESYS"];
    pub const FLOATS: &[&str] = &["LONPOLE", "LATPOLE", "EQUINOX", "CRPIX1", "CRPIX2", "CRPIX3", "CRVAL1", "CRVAL2", "CRVAL3", "CROTA1", "CROTA2", "CROTA3", "CDELT1", "CDELT2", "CDELT3", "CD1_1", "CD1_2", "CD1_3", "CD2_1", "CD2_2", "CD2_3", "CD3_1", "CD3_2", "CD3_3", "PC1_1", "PC1_2", "PC1_3", "PC2_1", "PC2_2", "PC2_3", "PC3_1", "PC3_2", "PC3_3", "PV1_0", "PV1_1", "PV1_2", "PV1_3", "PV1_4", "PV2_0", "PV2_1", "PV2_2", "PV2_3", "PV2_4", "PV2_5", "PV2_6", "PV2_7", "PV2_8", "PV2_9", "PV2_10", "PV2_11", "PV2_12", "PV2_13", "PV2_14", "PV2_15", "PV2_16", "PV2_17", "PV2_18", "PV2_19", "PV2_20", "A_0_2", "A_0_3", "A_1_1", "A_1_2", "A_2_0", "A_2_1", "A_3_0", "B_0_2", "B_0_3", "B_1_1", "B_1_2", "B_2_0", "B_2_1", "B_3_0", "AP_0_2", "AP_0_3", "AP_1_1", "AP_1_2", "AP_2_0", "AP_2_1", "AP_3_0", "BP_0_2", "BP_0_3", "BP_1_1", "BP_1_2", "BP_2_0", "BP_2_1", "BP_3_0"];

    pub fn new(p: &WCSParams) -> Result<Self, error::Error> {
        Ok(WCS { params: p.clone() })
    }
}
