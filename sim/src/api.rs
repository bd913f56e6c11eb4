//! The typed interface of the library as tables.
use crate::model::{Id, V};
use mp4ameta::{AdvisoryRating, ChannelConfig, Img, ImgBuf, ImgFmt, MediaType, SampleRate, Tag};

pub struct Single {
    pub name: &'static str,
    pub id: fn() -> Id,
    pub get: fn(&Tag) -> Option<String>,
    pub set: fn(&mut Tag, String),
    pub take: fn(&mut Tag) -> Option<String>,
    pub remove: fn(&mut Tag),
}

pub struct Multi {
    pub name: &'static str,
    pub id: fn() -> Id,
    pub all: fn(&Tag) -> Vec<String>,
    pub first: fn(&Tag) -> Option<String>,
    pub set: fn(&mut Tag, String),
    pub set_all: fn(&mut Tag, Vec<String>),
    pub add: fn(&mut Tag, String),
    pub add_all: fn(&mut Tag, Vec<String>),
    pub take: fn(&mut Tag) -> Option<String>,
    pub take_all: fn(&mut Tag) -> Vec<String>,
    pub remove: fn(&mut Tag),
}

pub struct Flag {
    pub name: &'static str,
    pub id: fn() -> Id,
    pub get: fn(&Tag) -> bool,
    pub set: fn(&mut Tag),
    pub remove: fn(&mut Tag),
}

pub struct Int {
    pub name: &'static str,
    pub wide: bool,
    pub id: fn() -> Id,
    pub get: fn(&Tag) -> Option<u32>,
    pub set: fn(&mut Tag, u32),
    pub remove: fn(&mut Tag),
}

pub struct Pair {
    pub name: &'static str,
    pub id: fn() -> Id,
    pub get: fn(&Tag) -> (Option<u16>, Option<u16>),
    pub number: fn(&Tag) -> Option<u16>,
    pub total: fn(&Tag) -> Option<u16>,
    pub set: fn(&mut Tag, u16, u16),
    pub set_number: fn(&mut Tag, u16),
    pub set_total: fn(&mut Tag, u16),
    pub remove: fn(&mut Tag),
    pub remove_number: fn(&mut Tag),
    pub remove_total: fn(&mut Tag),
}

fn cc(s: &str) -> Id {
    let b: Vec<u8> = s.chars().map(|c| c as u32 as u8).collect();
    Id::F([b[0], b[1], b[2], b[3]])
}
fn itunes(n: &str) -> Id {
    Id::Free("com.apple.iTunes".into(), n.into())
}

macro_rules! single {
    ($n:ident, $s:ident, $t:ident, $r:ident, $id:expr) => {
        Single {
            name: stringify!($n),
            id: || $id,
            get: |t| t.$n().map(|s| s.to_string()),
            set: |t, v| t.$s(v),
            take: |t| t.$t(),
            remove: |t| t.$r(),
        }
    };
}
macro_rules! multi {
    ($n:ident, $p:ident, $s:ident, $sa:ident, $a:ident, $aa:ident, $t:ident, $ta:ident, $r:ident, $id:expr) => {
        Multi {
            name: stringify!($n),
            id: || $id,
            all: |t| t.$p().map(|s| s.to_string()).collect(),
            first: |t| t.$n().map(|s| s.to_string()),
            set: |t, v| t.$s(v),
            set_all: |t, v| t.$sa(v),
            add: |t, v| t.$a(v),
            add_all: |t, v| t.$aa(v),
            take: |t| t.$t(),
            take_all: |t| t.$ta().collect(),
            remove: |t| t.$r(),
        }
    };
}
macro_rules! flag {
    ($n:ident, $s:ident, $r:ident, $id:expr) => {
        Flag { name: stringify!($n), id: || $id, get: |t| t.$n(), set: |t| t.$s(), remove: |t| t.$r() }
    };
}
macro_rules! int {
    ($w:expr, $ty:ty, $n:ident, $s:ident, $r:ident, $id:expr) => {
        Int { name: stringify!($n), wide: $w, id: || $id, get: |t| t.$n().map(|v| v as u32), set: |t, v| t.$s(v as $ty), remove: |t| t.$r() }
    };
}

pub const SINGLES: &[Single] = &[
    single!(title, set_title, take_title, remove_title, cc("©nam")),
    single!(album, set_album, take_album, remove_album, cc("©alb")),
    single!(copyright, set_copyright, take_copyright, remove_copyright, cc("cprt")),
    single!(encoder, set_encoder, take_encoder, remove_encoder, cc("©too")),
    single!(lyrics, set_lyrics, take_lyrics, remove_lyrics, cc("©lyr")),
    single!(movement, set_movement, take_movement, remove_movement, cc("©mvn")),
    single!(tv_episode_name, set_tv_episode_name, take_tv_episode_name, remove_tv_episode_name, cc("tven")),
    single!(tv_network_name, set_tv_network_name, take_tv_network_name, remove_tv_network_name, cc("tvnn")),
    single!(tv_show_name, set_tv_show_name, take_tv_show_name, remove_tv_show_name, cc("tvsh")),
    single!(work, set_work, take_work, remove_work, cc("©wrk")),
    single!(year, set_year, take_year, remove_year, cc("©day")),
    single!(isrc, set_isrc, take_isrc, remove_isrc, itunes("ISRC")),
];

pub const MULTIS: &[Multi] = &[
    multi!(artist, artists, set_artist, set_artists, add_artist, add_artists, take_artist, take_artists, remove_artists, cc("©ART")),
    multi!(
        album_artist, album_artists, set_album_artist, set_album_artists, add_album_artist, add_album_artists, take_album_artist, take_album_artists,
        remove_album_artists, cc("aART")
    ),
    multi!(category, categories, set_category, set_categories, add_category, add_categories, take_category, take_categories, remove_categories, cc("catg")),
    multi!(comment, comments, set_comment, set_comments, add_comment, add_comments, take_comment, take_comments, remove_comments, cc("©cmt")),
    multi!(composer, composers, set_composer, set_composers, add_composer, add_composers, take_composer, take_composers, remove_composers, cc("©wrt")),
    multi!(
        description, descriptions, set_description, set_descriptions, add_description, add_descriptions, take_description, take_descriptions,
        remove_descriptions, cc("desc")
    ),
    multi!(grouping, groupings, set_grouping, set_groupings, add_grouping, add_groupings, take_grouping, take_groupings, remove_groupings, cc("©grp")),
    multi!(keyword, keywords, set_keyword, set_keywords, add_keyword, add_keywords, take_keyword, take_keywords, remove_keywords, cc("keyw")),
    multi!(lyricist, lyricists, set_lyricist, set_lyricists, add_lyricist, add_lyricists, take_lyricist, take_lyricists, remove_lyricists, itunes("LYRICIST")),
    multi!(
        custom_genre, custom_genres, set_custom_genre, set_custom_genres, add_custom_genre, add_custom_genres, take_custom_genre, take_custom_genres,
        remove_custom_genres, cc("©gen")
    ),
];
/// Index of custom genres in MULTIS.
pub const CUSTOM_GENRE: usize = 9;

pub const FLAGS: &[Flag] = &[
    flag!(compilation, set_compilation, remove_compilation, cc("cpil")),
    flag!(gapless_playback, set_gapless_playback, remove_gapless_playback, cc("pgap")),
    flag!(show_movement, set_show_movement, remove_show_movement, cc("shwm")),
];

pub const INTS: &[Int] = &[
    int!(false, u16, bpm, set_bpm, remove_bpm, cc("tmpo")),
    int!(false, u16, movement_count, set_movement_count, remove_movement_count, cc("©mvc")),
    int!(false, u16, movement_index, set_movement_index, remove_movement_index, cc("©mvi")),
    int!(true, u32, tv_episode, set_tv_episode, remove_tv_episode, cc("tves")),
    int!(true, u32, tv_season, set_tv_season, remove_tv_season, cc("tvsn")),
];

pub const PAIRS: &[Pair] = &[
    Pair {
        name: "track",
        id: || cc("trkn"),
        get: |t| t.track(),
        number: |t| t.track_number(),
        total: |t| t.total_tracks(),
        set: |t, a, b| t.set_track(a, b),
        set_number: |t, a| t.set_track_number(a),
        set_total: |t, a| t.set_total_tracks(a),
        remove: |t| t.remove_track(),
        remove_number: |t| t.remove_track_number(),
        remove_total: |t| t.remove_total_tracks(),
    },
    Pair {
        name: "disc",
        id: || cc("disk"),
        get: |t| t.disc(),
        number: |t| t.disc_number(),
        total: |t| t.total_discs(),
        set: |t, a, b| t.set_disc(a, b),
        set_number: |t, a| t.set_disc_number(a),
        set_total: |t, a| t.set_total_discs(a),
        remove: |t| t.remove_disc(),
        remove_number: |t| t.remove_disc_number(),
        remove_total: |t| t.remove_total_discs(),
    },
];

pub const MEDIA: &[(MediaType, u8)] = &[
    (MediaType::Movie, 0),
    (MediaType::Normal, 1),
    (MediaType::AudioBook, 2),
    (MediaType::WhackedBookmark, 5),
    (MediaType::MusicVideo, 6),
    (MediaType::ShortFilm, 9),
    (MediaType::TvShow, 10),
    (MediaType::Booklet, 11),
];
pub const RATINGS: &[(AdvisoryRating, u8)] = &[(AdvisoryRating::Clean, 2), (AdvisoryRating::Inoffensive, 0), (AdvisoryRating::Explicit, 4)];

pub fn standard_genre_id() -> Id {
    cc("gnre")
}
pub fn artwork_id() -> Id {
    cc("covr")
}
pub fn media_id() -> Id {
    cc("stik")
}
pub fn rating_id() -> Id {
    cc("rtng")
}

/// Identifiers that belong to a typed field.
pub fn field_ids() -> Vec<Id> {
    let mut v: Vec<Id> = SINGLES.iter().map(|s| (s.id)()).collect();
    v.extend(MULTIS.iter().map(|s| (s.id)()));
    v.extend(FLAGS.iter().map(|s| (s.id)()));
    v.extend(INTS.iter().map(|s| (s.id)()));
    v.extend(PAIRS.iter().map(|s| (s.id)()));
    v.extend([standard_genre_id(), artwork_id(), media_id(), rating_id()]);
    v
}

pub fn fmt_code(f: &ImgFmt) -> u8 {
    match f {
        ImgFmt::Jpeg => 13,
        ImgFmt::Png => 14,
        ImgFmt::Bmp => 27,
    }
}
pub fn img(code: u8, b: Vec<u8>) -> ImgBuf {
    match code {
        13 => Img::jpeg(b),
        14 => Img::png(b),
        _ => Img::bmp(b),
    }
}
pub fn img_v(code: u8, b: Vec<u8>) -> V {
    match code {
        13 => V::Jpeg(b),
        14 => V::Png(b),
        _ => V::Bmp(b),
    }
}

pub fn channels(n: u8) -> Option<ChannelConfig> {
    Some(match n {
        1 => ChannelConfig::Mono,
        2 => ChannelConfig::Stereo,
        3 => ChannelConfig::Three,
        4 => ChannelConfig::Four,
        5 => ChannelConfig::Five,
        6 => ChannelConfig::FiveOne,
        7 => ChannelConfig::SevenOne,
        _ => return None,
    })
}
pub fn channel_count(n: u8) -> u8 {
    if n == 7 {
        8
    } else {
        n
    }
}
pub const RATES: &[(SampleRate, u32)] = &[
    (SampleRate::Hz96000, 96000),
    (SampleRate::Hz88200, 88200),
    (SampleRate::Hz64000, 64000),
    (SampleRate::Hz48000, 48000),
    (SampleRate::Hz44100, 44100),
    (SampleRate::Hz32000, 32000),
    (SampleRate::Hz24000, 24000),
    (SampleRate::Hz22050, 22050),
    (SampleRate::Hz16000, 16000),
    (SampleRate::Hz12000, 12000),
    (SampleRate::Hz11025, 11025),
    (SampleRate::Hz8000, 8000),
    (SampleRate::Hz7350, 7350),
];

/// Calls everything that can be asked of a tag, including edits on a copy.
pub fn query_all(t: &Tag) -> u64 {
    let mut n = 0u64;
    let mut c = t.clone();
    for s in SINGLES {
        n += (s.get)(t).map_or(0, |s| s.len() as u64);
        (s.take)(&mut c);
    }
    for s in MULTIS {
        n += (s.all)(t).len() as u64;
        n += (s.first)(t).map_or(0, |s| s.len() as u64);
    }
    for f in FLAGS {
        n += (f.get)(t) as u64;
    }
    for i in INTS {
        n += (i.get)(t).unwrap_or(0) as u64;
    }
    for p in PAIRS {
        n += (p.get)(t).0.unwrap_or(0) as u64 + (p.number)(t).unwrap_or(0) as u64 + (p.total)(t).unwrap_or(0) as u64;
        (p.set_total)(&mut c, 7);
        (p.remove_number)(&mut c);
        (p.set_number)(&mut c, 9);
        (p.remove_total)(&mut c);
    }
    n += t.genres().count() as u64 + t.genre().map_or(0, |g| g.len() as u64);
    n += t.standard_genres().map(|g| g as u64).sum::<u64>() + t.standard_genre().unwrap_or(0) as u64;
    n += t.artworks().map(|a| a.data.len() as u64).sum::<u64>() + t.artwork().is_some() as u64;
    n += t.media_type().is_some() as u64 + t.advisory_rating().is_some() as u64;
    n += t.duration().map_or(0, |d| d.as_secs() >> 8);
    n += t.channel_config().map_or(0, |c| c.channel_count() as u64 + c.to_string().len() as u64);
    n += t.sample_rate().map_or(0, |c| c.hz() as u64 + c.to_string().len() as u64);
    n += t.avg_bitrate().unwrap_or(0) as u64 + t.max_bitrate().unwrap_or(0) as u64;
    n += t.filetype().len() as u64;
    n += t.data().count() as u64 + t.bytes().count() as u64 + t.strings().count() as u64 + t.images().count() as u64;
    n += t.to_string().len() as u64;
    n += format!("{:?}", t).len() as u64;
    n += (*t == c) as u64;
    let _ = c.take_genre();
    let _ = c.take_genres().count();
    let _ = c.take_artwork();
    c.retain_data(|_, d| d.data_len_probe());
    n
}

trait Probe {
    fn data_len_probe(&self) -> bool;
}
impl Probe for mp4ameta::Data {
    fn data_len_probe(&self) -> bool {
        self.len() % 2 == 0 || self.is_bytes() || self.is_string() || self.is_image() || self.is_empty()
    }
}

/// The ID3v1 genres, in lower case and without punctuation.
pub const GENRES: [&str; 80] = [
    "blues", "classicrock", "country", "dance", "disco", "funk", "grunge", "hiphop", "jazz", "metal",
    "newage", "oldies", "other", "pop", "rhythmandblues", "rap", "reggae", "rock", "techno", "industrial",
    "alternative", "ska", "deathmetal", "pranks", "soundtrack", "eurotechno", "ambient", "triphop", "vocal", "jazzfunk",
    "fusion", "trance", "classical", "instrumental", "acid", "house", "game", "soundclip", "gospel", "noise",
    "alternativerock", "bass", "soul", "punk", "space", "meditative", "instrumentalpop", "instrumentalrock", "ethnic", "gothic",
    "darkwave", "technoindustrial", "electronic", "popfolk", "eurodance", "dream", "southernrock", "comedy", "cult", "gangsta",
    "top40", "christianrap", "popfunk", "jungle", "nativeus", "cabaret", "newwave", "psychedelic", "rave", "showtunes",
    "trailer", "lofi", "tribal", "acidpunk", "acidjazz", "polka", "retro", "musical", "rocknroll", "hardrock",
];

/// Whether a genre is named as ID3v1 names it (spelling and punctuation vary; the library's list says "Top 41").
pub fn genre_named(code: u16, name: &str) -> bool {
    let n: String = name.to_lowercase().chars().filter(|c| c.is_ascii_alphanumeric()).collect();
    let w = GENRES[code as usize - 1];
    n == w || (w == "top40" && n == "top41")
}
