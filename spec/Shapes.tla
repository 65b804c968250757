---------------------------- MODULE Shapes ----------------------------
(* MS-ONE 2.3.86 note tag shapes, in numeric order from 0. *)
ShapeNames == <<
  "NoIcon", "GreenCheckBox", "YellowCheckBox", "BlueCheckBox", "GreenStarCheckBox",
  "YellowStarCheckBox", "BlueStarCheckBox", "GreenExclamationCheckBox",
  "YellowExclamationCheckBox", "BlueExclamationCheckBox", "GreenRightArrowCheckBox",
  "YellowRightArrowCheckBox", "BlueRightArrowCheckBox", "YellowStar", "BlueFollowUpFlag",
  "QuestionMark", "BlueRightArrow", "HighPriority", "ContactInformation", "Meeting",
  "TimeSensitive", "LightBulb", "Pushpin", "Home", "CommentBubble", "SmilingFace",
  "AwardRibbon", "YellowKey", "BlueCheckBox1", "BlueCircle1", "BlueCheckBox2", "BlueCircle2",
  "BlueCheckBox3", "BlueCircle3", "BlueEightPointStar", "BlueCheckMark", "BlueCircle",
  "BlueDownArrow", "BlueLeftArrow", "BlueSolidTarget", "BlueStar", "BlueSun", "BlueTarget",
  "BlueTriangle", "BlueUmbrella", "BlueUpArrow", "BlueXWithDots", "BlueX", "GreenCheckBox1",
  "GreenCircle1", "GreenCheckBox2", "GreenCircle2", "GreenCheckBox3", "GreenCircle3",
  "GreenEightPointStar", "GreenCheckMark", "GreenCircle", "GreenDownArrow", "GreenLeftArrow",
  "GreenRightArrow", "GreenSolidArrow", "GreenStar", "GreenSun", "GreenTarget", "GreenTriangle",
  "GreenUmbrella", "GreenUpArrow", "GreenXWithDots", "GreenX", "YellowCheckBox1",
  "YellowCircle1", "YellowCheckBox2", "YellowCircle2", "YellowCheckBox3", "YellowCircle3",
  "YellowEightPointStar", "YellowCheckMark", "YellowCircle", "YellowDownArrow",
  "YellowLeftArrow", "YellowRightArrow", "YellowSolidTarget", "YellowSun", "YellowTarget",
  "YellowTriangle", "YellowUmbrella", "YellowUpArrow", "YellowXWithDots", "YellowX",
  "FollowUpTodayFlag", "FollowUpTomorrowFlag", "FollowUpThisWeekFlag", "FollowUpNextWeekFlag",
  "NoFollowUpDateFlag", "BluePersonCheckBox", "YellowPersonCheckBox", "GreenPersonCheckBox",
  "BlueFlagCheckBox", "RedFlagCheckBox", "GreenFlagCheckBox", "RedSquare", "YellowSquare",
  "BlueSquare", "GreenSquare", "OrangeSquare", "PinkSquare", "EMailMessage", "ClosedEnvelope",
  "OpenEnvelope", "MobilePhone", "TelephoneWithClock", "QuestionBalloon", "PaperClip",
  "FrowningFace", "InstantMessagingContactPerson", "PersonWithExclamationMark", "TwoPeople",
  "ReminderBell", "Contact", "RoseOnAStem", "CalendarDateWithClock", "MusicalNote", "MovieClip",
  "QuotationMark", "Globe", "HyperlinkGlobe", "Laptop", "Plane", "Car", "Binoculars",
  "PresentationSlide", "Padlock", "OpenBook", "NotebookWithClock", "BlankPaperWithLines",
  "Research", "Pen", "DollarSign", "CoinsWithAWindowBackdrop", "ScheduledTask", "LightningBolt",
  "Cloud", "Heart", "Sunflower"
>>
========================================================================
