//! Base texts around which symbolic windows are placed.
pub const TP: &[&str] = &[
    "10,-2.5,4,1,0,60,1,9",
    "-5,333.33,3,2,1,100,0",
    "1,2,4,3,2",
    "7,9.5",
    "8,1,4,1,7,5",
    "2147483647,1,2147483647,4,4294967295,2147483647,1,4294967295\n3,4,4,0,1,50,1,8",
];
pub const HO: &[&str] = &[
    "25,19,1000,5,2,0:1:2:30:a.wav",
    "1,2,3,1,0,",
    "1.5,-2,3,37,8",
    "10,20,5,6,0,B|1:2|3:4,1,14.5,2|0,0:0|1:2,0:0:0:0:",
    "1,2,3,2,0,L|4:5,1,10",
    "1,2,3,2,0,P,2,1,4,1:3",
    "1,2,3,2,0,C|1:1,2,1,4|2",
    "25,19,10,12,4,200,3:2:1:100:",
    "6,9,1,128,0,30:1:2:3:4:b",
    "6,9,1,128,0,30:",
    "1,2,79228162514264337593543950335,8,0,79228162514264337593543950335",
    "1,2,-79228162514264337593543950335,128,0,-79228162514264337593543950335:",
];
pub const COL: &[&str] = &[
    "Combo1 : 255,128,0",
    "SliderTrackOverride : 1,2,3",
    "SliderBorder:9,9,9\nSliderborder : 0,0,0",
    "Combo2147483647 : 1,1,1",
];
pub const EV: &[&str] = &[
    "0,0,\"b g.jpg\",1,-2",
    "0,0,bg.jpg",
    "1,24,v.avi,0,0.5",
    "Video,-3,\"v.avi\"",
    "2,10,200",
    "Break,10,200",
    "3,100,1,22,255",
    "4,0,1,s.png,1,2",
    "5,5,9,a.png",
    "6,10.5,2,h.wav,70",
    "6,1,3,h.wav",
    "Sample,-5,3,\"h.wav\",100",
    "Sample,5,0,h.wav",
    "Sprite,Pass,Centre,\"s.png\",320,240",
    "Sprite,Overlay,12,s.png,1,2",
    "Animation,Fail,TopLeft,\"a.png\",1,2,3,4.5,LoopOnce",
    "Animation,Foreground,3,a.png,1,2,3,4",
    "Animation,Foreground,3,a.png,1,2,3,4,x",
    "0",
    "Video",
    "2",
    "6",
    "//c",
    "1,2147483647,v\n2,2147483647,-2147483648\n3,2147483647,0,0,0",
];
pub const CMD: &[&str] = &[
    " F,0,10,20,0,1",
    " M,3,10,,1,2,3,4,5",
    " MX,34,-1,2,0.5",
    " MY,35,,,1,2,3",
    " S,0,10,20,1.5",
    " V,0,10,20,1,2,3",
    " R,0,1,2,-3.1,4",
    " C,0,10,20,1,2,3,4,5",
    " C,1,1,1,1,2,3,4,5,6,7",
    " P,0,10,20,H,V,A",
    " L,10,3",
    " L,,4",
    " T,HitSound,1,2",
    " T,HitSoundAllSoftClap12,1,2,3",
    " T,HitSound1Drum2,,,5",
    " T,Passing,1",
    " T,Failing,,7",
    " T,Passing",
    " T,HitSoundNormalSoftWhistle6",
    " T,HitSound3Drum",
    " T,HitSoundNormalSoftDrumClap1",
];
pub const TREE: &[&str] = &[
    "Sprite,Pass,Centre,s.png,1,2\n L,1,2\n  F,0,1,,0\n  T,Passing\n   S,0,1,,2\n MX,0,1,2,3",
    "4,0,0,s.png\n_F,0,1,,0\n//c\n0,0,b\n F,0,1,,0",
    "0,0,b\n F,0,$a,,0\n L,0,$a",
];
pub const GEN: &[&str] = &[
    "AudioFilename: a b.mp3\nAudioLeadIn: -1\nAudioHash: x\nPreviewTime: 2147483647",
    "Countdown: 2\nSampleSet: Soft\nStackLeniency: 0.70\nMode: 3",
    "LetterboxInBreaks: 0\nStoryFireInFront: 1\nOverlayPosition: Above",
    "SkinPreference:\nEditorBookmarks: 1,-2,3\nEditorDistanceSpacing: 1.5",
];
pub const EDI: &[&str] = &["Bookmarks: 1,2,33\nDistanceSpacing: 0.5\nGridSize: 4", "BeatDivisor: 4\nTimelineZoom: 2.5\nCurrentTime: -7"];
pub const MET: &[&str] = &["Title:a\nTags:a b  c\nBeatmapID:12\nBeatmapSetID:-1", "Creator: x\nVersion:y:z\nSource:"];
pub const DIF: &[&str] = &["HPDrainRate:5\nCircleSize:4.2", "SliderMultiplier:1.40\nSliderTickRate:1"];
pub const OSB: &[&str] = &[
    "[Variables]\n$a=1\n$bc=x y\n\n[Events]\nSprite,Pass,Centre,s.png,1,2\n F,0,$a,,1\n",
    "//c\n[Events]\n0,0,b\n\n[Variables]\n$a=",
];
pub const FILE: &[&str] = &[
    "osu file format v14\n\n[General]\nMode: 0\n\n[Events]\n0,0,b\n",
    "\u{feff}osu file format v9\r\n\r\n[Editor]\r\n\r\n[Metadata]\r\nTitle:a\r\n",
    "osu file format v14\n//c [x]\n[General]\n[Editor]\n\n[Difficulty]\n\n",
    "osu file format v7\n[Colours]\n[Events]",
    "\n osu file format v3\n//c\n[TimingPoints]\n1,2\n[Colours]\n[HitObjects]\n1,2,3,1,0,\n",
];
